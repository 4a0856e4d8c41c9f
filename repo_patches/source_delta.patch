From 722e808c4edb364af19b49d4412d5c9cc91e3117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 01/78] fix: resolve references against documents at the root
 of a host and absolute-path references

---
 pyopenapi/utils.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 64ecc2c..5e9455e 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -263,11 +263,18 @@ def normalize_jr(json_ref, url=None):
         parsed = six.moves.urllib.parse.urlparse(url_part)
         if parsed.scheme == '' and url:
             url_parsed = six.moves.urllib.parse.urlparse(url)
-            # it's the path of relative file
-            url_part = six.moves.urllib.parse.urlunparse(
-                url_parsed[:2] +
-                ('/'.join([os.path.dirname(url_parsed.path), url_part]),
-                 ) + url_parsed[3:])
+            if parsed.netloc:
+                # only the scheme is omitted
+                url_part = url_parsed.scheme + ':' + url_part
+            else:
+                # it's the path of relative file, or an absolute path
+                # on the same host.
+                if not url_part.startswith('/'):
+                    url_part = '/'.join([
+                        os.path.dirname(url_parsed.path).rstrip('/'), url_part
+                    ])
+                url_part = six.moves.urllib.parse.urlunparse(
+                    url_parsed[:2] + (url_part, ) + url_parsed[3:])
             url_part = derelativise_url(url_part)
     else:
         url_part = url
-- 
2.43.0


From fbb5e85e7de42d30ec35f2831d47e53d9a45b06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 02/78] fix: url_dirname recognises .yml files and does not
 mistake folders ending with an extension name

---
 pyopenapi/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 5e9455e..234bb56 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -211,7 +211,7 @@ def url_dirname(url):
     """ Return the folder containing the '.json' file
     """
     parsed = six.moves.urllib.parse.urlparse(url)
-    for ext in [consts.FILE_EXT_JSON, consts.FILE_EXT_YAML]:
+    for ext in consts.VALID_FILE_EXT:
         if parsed.path.endswith(ext):
             return six.moves.urllib.parse.urlunparse(
                 parsed[:2] + (os.path.dirname(parsed.path), ) + parsed[3:])
-- 
2.43.0


From 80ede9064ceaab6d2cde4e716784cee28be160a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 03/78] fix: match cached JSON pointers on complete tokens

---
 pyopenapi/migration/store.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 6884020..24f02d7 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -14,6 +14,13 @@ from .spec import _Base
 logger = logging.getLogger(__name__)
 
 
+def _is_under(jp, base):
+    """ check if a JSON pointer locates at 'base' or below it,
+    only complete tokens are compared: '#/a/bc' is not under '#/a/b'
+    """
+    return not base or jp == base or jp.startswith(base + '/')
+
+
 class SpecObjStore(object):
     """ cache of spec objects
     """
@@ -49,13 +56,17 @@ class SpecObjStore(object):
         if not url_cache:
             return None
 
-        # try to find a 'jp' with common prefix with input under 'url'
+        # try to find the closest object enclosing 'jp' under 'url'
+        found = None
         for path, cache in six.iteritems(url_cache):
-            if jp.startswith(path) and spec_version in cache:
-                return cache[spec_version].resolve(
-                    utils.jp_split(jp[len(path):])[1:])
+            if _is_under(jp, path) and spec_version in cache:
+                if found is None or len(path) > len(found):
+                    found = path
 
-        return None
+        if found is None:
+            return None
+        return url_cache[found][spec_version].resolve(
+            utils.jp_split(jp[len(found):])[1:])
 
     def get_under(self, url, jp, spec_version, remove=True):
         """ get all children under 'jp', and remove them
@@ -72,7 +83,7 @@ class SpecObjStore(object):
 
         ret = {}
         for path, cache in six.iteritems(url_cache):
-            if path.startswith(jp) and spec_version in cache:
+            if _is_under(path, jp) and spec_version in cache:
                 ret[path[len(jp) + 1:]] = cache[spec_version]
                 if remove:
                     del cache[spec_version]
-- 
2.43.0


From 8407ddae041c82ee764fabf2649692c54abe8588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 04/78] fix: relocate JSON pointers on complete tokens

---
 pyopenapi/migration/store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 24f02d7..0d04e09 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -145,7 +145,7 @@ class SpecObjStore(object):
             patch_from = None
             for from_, to_ in six.iteritems(current_routes):
                 # find the longest prefix in from_
-                if not remain_jp.startswith(from_):
+                if from_ and not _is_under(remain_jp, from_):
                     continue
                 if not patch_from or len(from_) > len(patch_from):
                     patch_from, patch_to = from_, to_
-- 
2.43.0


From b4037f3f3b5d01c119cdda48a265cafd37d7bee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 05/78] fix: dump boolean additionalProperties

---
 pyopenapi/migration/spec/obj.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index bd81c0a..2c56469 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -647,7 +647,10 @@ class Base2Obj(_Base):
         # dump children first
         for name in children:
             child_ = getattr(self, name)
-            if child_:
+            if isinstance(child_, bool):
+                ret[name] = child_
+                fields.discard(name)
+            elif child_:
                 ret[name] = child_.dump()
                 fields.discard(name)
 
-- 
2.43.0


From c43fe45761194be5755268d33cdea4b7536aa03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 06/78] fix: accept and migrate security requirements of the
 root Swagger object

---
 pyopenapi/migration/versions/v2_0/objects.py                    | 2 +-
 pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index 9605d74..a27dccf 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -384,7 +384,7 @@ class Swagger(BaseObj_v2_0):
         'parameters': dict(child_builder=map_(Parameter)),
         'responses': dict(child_builder=map_(Response)),
         'securityDefinitions': dict(child_builder=map_(SecurityScheme)),
-        'security': dict(child_builder=list_(list_(is_str))),
+        'security': dict(child_builder=list_(map_(list_(is_str)))),
         'tags': dict(child_builder=list_(Tag)),
         'externalDocs': dict(child_builder=ExternalDocumentation),
     }
diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 9729b35..9a49c3b 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -624,7 +624,7 @@ def to_openapi(obj, path):
 
     # security
     if obj.security:
-        ret['security'] = obj.security
+        ret['security'] = obj.security.dump()
 
     # tag
     if obj.tags:
-- 
2.43.0


From 65c75ca2bfe2c352bfab4a071b89f5c706ab402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 07/78] fix: keep an empty security list of an operation, it
 overrides the global one

---
 pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 9a49c3b..6a2e2e9 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -448,7 +448,7 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
     if obj.tags:
         ret['tags'] = obj.tags.dump()
 
-    if obj.security:
+    if obj.security is not None:
         ret['security'] = obj.security.dump()
 
     # parameters
-- 
2.43.0


From 41001537a516b96d561decfb332897e9e68c2bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 08/78] fix: examples of a Media Type Object is a map

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 503552a..482363e 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -311,7 +311,7 @@ class MediaType(Base2_v3_0_0):
 
     __children__ = {
         'schema': dict(child_builder=SchemaOrReference),
-        'examples': dict(child_builder=ExampleOrReference),
+        'examples': dict(child_builder=map_(ExampleOrReference)),
         'encoding': dict(child_builder=map_(Encoding)),
     }
 
-- 
2.43.0


From 0f72e697725280fb7c50530d2c8334124d3e4425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 09/78] fix: misspelled fields: Schema.deprecated,
 Encoding.style, OAuthFlows.client_credentials

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 482363e..f1071ca 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -187,7 +187,7 @@ class Schema(Base2_v3_0_0):
         'readOnly': dict(),
         'writeOnly': dict(),
         'example': dict(),
-        'depreated': dict(),
+        'deprecated': dict(),
     }
 
     __children__ = {
@@ -289,7 +289,7 @@ HeaderOrReference = if_not_ref_else(Header)
 class Encoding(Base2_v3_0_0):
     __fields__ = {
         'contentType': dict(),
-        'stype': dict(),
+        'style': dict(),
         'explode': dict(),
         'allowReserved': dict(),
     }
@@ -398,7 +398,7 @@ class OAuthFlows(Base2_v3_0_0):
     }
 
     __internal__ = {
-        'client_credentials': dict(key='clientCredential', builder=rename),
+        'client_credentials': dict(key='clientCredentials', builder=rename),
         'authorization_code': dict(key='authorizationCode', builder=rename),
     }
 
-- 
2.43.0


From 89cac03e98825fa8d89801b2fac0fe6f245a32a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 10/78] fix: name OAuth2 flows and basic authentication as
 OpenAPI 3.0 does

---
 .../migration/versions/v2_0/scanner/upgrade/constants.py  | 8 ++++++++
 .../migration/versions/v2_0/scanner/upgrade/converters.py | 5 +++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/constants.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/constants.py
index 6136ed4..31371b9 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/constants.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/constants.py
@@ -30,6 +30,14 @@ SCHEMA_FIELDS = BASE_SCHEMA_FIELDS + (
     'example',
 )
 
+# names of OAuth2 flows in Swagger 2.0 (and those converted from 1.2)
+# => in OpenAPI 3.0
+OAUTH2_FLOWS = {
+    'application': 'clientCredentials',
+    'accessCode': 'authorizationCode',
+    'access_code': 'authorizationCode',
+}
+
 FILE_CONTENT_TYPES = [
     'multipart/form-data',
     'application/x-www-form-urlencoded',
diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 6a2e2e9..d99c59f 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -5,7 +5,7 @@ import six
 
 from ......utils import jp_compose, deref
 from ......errs import SchemaError
-from .constants import BASE_SCHEMA_FIELDS, SCHEMA_FIELDS
+from .constants import BASE_SCHEMA_FIELDS, SCHEMA_FIELDS, OAUTH2_FLOWS
 from .parameter_context import ParameterContext
 
 
@@ -166,7 +166,7 @@ def to_flows(obj, path):
         raise SchemaError('no flow type for oauth2, {}'.format(path))
 
     ret = {}
-    flow = ret.setdefault(obj.flow, {})
+    flow = ret.setdefault(OAUTH2_FLOWS.get(obj.flow, obj.flow), {})
     flow.update(_generate_fields(obj, [
         'authorizationUrl',
         'tokenUrl',
@@ -183,6 +183,7 @@ def to_security_scheme(obj, path):
     type_ = getattr(obj, 'type', None)
     ret['type'] = type_
     if type_ == 'basic':
+        ret['type'] = 'http'
         ret['scheme'] = 'basic'
     elif type_ == 'oauth2':
         ret['flows'] = to_flows(obj, path)
-- 
2.43.0


From ae4ac079c0998101134948ebfaf278d10f9fa7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 11/78] fix: build a valid server url when host or basePath is
 missing, one server per scheme

---
 .../v2_0/scanner/upgrade/converters.py        | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index d99c59f..ccbda12 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -584,13 +584,17 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
     return ret, reloc
 
 
-def from_swagger_to_server(obj, _):
-    url = obj.host if not obj.basePath else six.moves.urllib.parse.urlunsplit(
-        (obj.schemes[0]
-         if obj.schemes else 'https', obj.host, obj.basePath, None, None))
-    url = url or '/'
+def from_swagger_to_server(obj, _, scheme=None):
+    if not obj.host:
+        # relative to the location where the document is being served
+        return {'url': obj.basePath or '/'}
 
-    return {'url': url}
+    scheme = scheme or (obj.schemes[0] if obj.schemes else 'https')
+    return {
+        'url':
+        six.moves.urllib.parse.urlunsplit((scheme, obj.host, obj.basePath or '',
+                                           None, None))
+    }
 
 
 def to_openapi(obj, path):
@@ -604,6 +608,9 @@ def to_openapi(obj, path):
     # servers
     server = from_swagger_to_server(obj, path)
     ret['servers'] = [server]
+    if obj.host:
+        for scheme in list(obj.schemes or [])[1:]:
+            ret['servers'].append(from_swagger_to_server(obj, path, scheme))
 
     # paths
     if obj.paths:
-- 
2.43.0


From ca5100585158faf7598ba85c0e4f4c411acc35ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 12/78] fix: the schema of a file response belongs to schema
 field of Media Type Object

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index ccbda12..59b238d 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -415,9 +415,10 @@ def to_response(obj, produces, path):
         content = ret.setdefault('content', {})
         type_ = getattr(resolved_obj.schema, 'type', None)
         if type_ == 'file':
-            media_type = content.setdefault('application/octet-stream', {})
-            media_type['type'] = 'string'
-            media_type['format'] = 'binary'
+            content['application/octet-stream'] = {
+                'schema':
+                to_schema(resolved_obj.schema, jp_compose('schema', base=path))
+            }
         else:
             for type_ in produces:
                 content[type_] = {
-- 
2.43.0


From cb49cb5519ccb72ffbe7c25aebe8d37e55bca2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 13/78] fix: encode names of body parameters in relocated JSON
 pointers

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 59b238d..057abba 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -675,7 +675,9 @@ def to_openapi(obj, path):
                         request_bodies = components.setdefault(
                             'requestBodies', {})
                     request_bodies[k] = param
-                    param_reloc[k] = '#/components/requestBodies/{}'.format(k)
+                    encoded = jp_compose(k)
+                    param_reloc[encoded] = jp_compose(
+                        k, base='#/components/requestBodies')
                 else:
                     if parameters is None:
                         parameters = components.setdefault('parameters', {})
-- 
2.43.0


From 762dc645fbd11a0b93212406cf5148b9ed44fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 14/78] fix: scopes of an OAuth2 flow are required in OpenAPI
 3.0 even when there is none

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 057abba..b7dd91d 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -172,8 +172,7 @@ def to_flows(obj, path):
         'tokenUrl',
     ]))
 
-    if obj.scopes:
-        flow['scopes'] = obj.scopes.dump()
+    flow['scopes'] = obj.scopes.dump() if obj.scopes else {}
 
     return ret
 
-- 
2.43.0


From 7934e43e108dd8de9d6d07fab7540b6b370ba8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 15/78] fix: compose the body parameters of a path item for
 each operation on its own

---
 .../v2_0/scanner/upgrade/converters.py        | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index b7dd91d..966d853 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -529,13 +529,36 @@ def to_info(obj, path):
     return ret
 
 
+def _inherit_body(params, operation, consumes, path):
+    """ compose the request body from 'body' or 'formData' parameters
+    under Path Item Object for one operation, those parameters overridden
+    by the operation are skipped.
+    """
+
+    def _get_key(param):
+        in_ = getattr(param, 'in', None)
+        # there can be only one 'body' parameter
+        return (None if in_ == 'body' else param.name, in_)
+
+    overridden = [_get_key(deref(p)) for p in operation.parameters or []]
+
+    body = None
+    for index, param in params:
+        if _get_key(deref(param)) not in overridden:
+            body, _ = from_parameter(param, body, consumes,
+                                     jp_compose(
+                                         ['parameters', str(index)], base=path))
+
+    return body
+
+
 def to_path_item(obj, root_url, path, consumes=None, produces=None):
     ret, reloc = {}, {}
     if obj.ref:
         ret['$ref'] = obj.get_attrs('migration').normalized_ref
 
     # parameters
-    body = None
+    body, body_params = None, []
     if obj.parameters:
         consumes, parameters = consumes or [], None
         for index, param in enumerate(obj.parameters):
@@ -546,6 +569,7 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
                 path=jp_compose(['parameters', str(index)], base=path))
             if pctx.is_file or pctx.is_body:
                 body = new_p
+                body_params.append((index, param))
                 reloc['parameters/{}'.format(
                     index)] = 'x-pyopenapi_internal_request_body'
             else:
@@ -567,7 +591,8 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
         if operation:
             ret[method] = to_operation(
                 operation,
-                body,
+                _inherit_body(body_params, operation, operation.consumes or
+                              consumes, path),
                 root_url,
                 jp_compose(method, base=path),
                 produces=produces,
-- 
2.43.0


From 6df7adad57c9bd6458124ce6d7bd907645326cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 16/78] fix: relocate path item parameters that move up because
 of a body parameter

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 966d853..88c1cbc 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -575,6 +575,9 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
             else:
                 if not parameters:
                     parameters = ret.setdefault('parameters', [])
+                if len(parameters) != index:
+                    reloc['parameters/{}'.format(
+                        index)] = 'parameters/{}'.format(len(parameters))
                 parameters.append(new_p)
 
     # operations
-- 
2.43.0


From 12a11530a52f6e3d6a111d6b82b2da0dc3b34e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 17/78] fix: collectionFormat of formData, and its default
 value

---
 .../versions/v2_0/scanner/upgrade/converters.py  | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 88c1cbc..bcd9d74 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -22,6 +22,8 @@ def _generate_fields(obj, names):
 def to_style_and_explode(collection_format, in_, type_, path):
     style = None
     explode = None
+    # the encoding of a form is the same as the one in query
+    in_ = 'query' if in_ == 'formData' else in_
     if collection_format == 'csv':
         if in_ == 'query':
             style = 'form'
@@ -247,10 +249,12 @@ def to_encoding(obj, content_type, path):
             'application/x-www-form-urlencoded', 'multipart/form-data'
     ]:
         ret['contentType'] = _decide_encoding_content_type(obj, path)
-        if obj.is_set('collectionFormat'):
-            style, explode = to_style_and_explode(obj.collectionFormat,
-                                                  getattr(obj, 'in', None),
-                                                  getattr(obj, 'type', None),
+        in_ = getattr(obj, 'in', None)
+        type_ = getattr(obj, 'type', None)
+        if obj.is_set('collectionFormat') or (type_ == 'array' and
+                                              in_ == 'formData'):
+            style, explode = to_style_and_explode(obj.collectionFormat, in_,
+                                                  type_,
                                                   jp_compose(
                                                       'collectionFormat',
                                                       base=path))
@@ -348,7 +352,9 @@ def to_parameter(obj, path):
         ret.setdefault('schema', {})['items'] = from_items(
             obj.items, jp_compose('items', base=path))
 
-    if obj.is_set('collectionFormat'):
+    # 'csv' is the default one in Swagger 2.0, but the default one for query
+    # in OpenAPI 3.0 is corresponding to 'multi'
+    if obj.is_set('collectionFormat') or (type_ == 'array' and in_ == 'query'):
         style, explode = to_style_and_explode(obj.collectionFormat, in_, type_,
                                               jp_compose(
                                                   'collectionFormat',
-- 
2.43.0


From 944a128eec776e49c434d72fcc0394dc41944d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 18/78] fix: keep an empty description of external
 documentation

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index bcd9d74..6b625e6 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -78,8 +78,7 @@ def to_xml(obj, _):
 def to_external_docs(obj, _):
     ret = {}
     ret['url'] = obj.url
-    if obj.description:
-        ret['description'] = obj.description
+    ret.update(_generate_fields(obj, ['description']))
 
     return ret
 
-- 
2.43.0


From 9d7309ecdbaf9c54b4ce0172bb66ed0bac17dc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 19/78] fix: migrate examples of Response Object

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 6b625e6..3f977cf 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -431,6 +431,11 @@ def to_response(obj, produces, path):
                               jp_compose('schema', base=path))
                 }
 
+    # examples
+    for type_, example in six.iteritems(resolved_obj.examples or {}):
+        ret.setdefault('content', {}).setdefault(type_,
+                                                 {})['example'] = example
+
     # header
     if resolved_obj.headers:
         headers = ret.setdefault('headers', {})
-- 
2.43.0


From f0abe4e405d52cbec347e94443b0970d566b81b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 20/78] fix: match trailing names of a scope on separators

---
 pyopenapi/utils.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 234bb56..2ebfb59 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -78,22 +78,14 @@ class ScopeDict(dict):
         except KeyError as e:
             ret = []
             for obj_name in self.keys():
-                if obj_name.endswith(k):
+                # only complete names are compared, when access with 'get'
+                #  - a!##!get is matched
+                #  - b!##!something-get is not
+                if obj_name.endswith(self.__sep + k):
                     ret.append(obj_name)
             if len(ret) == 1:
                 return super(ScopeDict, self).__getitem__(ret[0])
             elif len(ret) > 1:
-                # special case for the last token:
-                #  - a!##!get
-                #  - b!##!something-get
-                #  and access with 'get'
-                last_k = k.rsplit(self.__sep, 1)[-1]
-                matched = [
-                    r for r in ret if r.rsplit(self.__sep, 1)[-1] == last_k
-                ]
-                if len(matched) == 1:
-                    return super(ScopeDict, self).__getitem__(matched[0])
-
                 raise ValueError('Multiple occurrence of key: {0}'.format(k))
 
             raise e
-- 
2.43.0


From bc3e4a3e3118f3fbd420055b379d985acc2592ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 21/78] fix: compare every element of containers, and report
 the place of the difference

---
 pyopenapi/migration/spec/obj.py | 94 +++++++++++++++------------------
 1 file changed, 43 insertions(+), 51 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 2c56469..44978c7 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -126,6 +126,38 @@ def child(key, child_builder=None, required=False, default=None):
     return property(_getter_, _setter_)
 
 
+def _compare(self_, other_, base):
+    """ compare 2 values: spec objects, containers of them, or plain ones
+
+    :return: a tuple (is the same, JSON pointer to the 1st difference)
+    """
+    if isinstance(self_, (Base2Obj, _Map, _List)):
+        return self_.compare(other_, base=base)
+
+    if isinstance(self_, list):
+        if not isinstance(other_, list) or len(self_) != len(other_):
+            return False, base
+        for idx, (elm, other_elm) in enumerate(zip(self_, other_)):
+            same, location = _compare(elm, other_elm,
+                                      jp_compose(str(idx), base))
+            if not same:
+                return same, location
+    elif isinstance(self_, dict):
+        if not isinstance(other_, dict):
+            return False, base
+        diff = list(set(self_) ^ set(other_))
+        if diff:
+            return False, jp_compose(str(diff[0]), base)
+        for k, val in six.iteritems(self_):
+            same, location = _compare(val, other_[k], jp_compose(str(k), base))
+            if not same:
+                return same, location
+    else:
+        # primitives, or unknown type, delegate to default compare
+        return self_ == other_, base
+    return True, ''
+
+
 class _Base(object):
     def __init__(self, spec, path=None, override=None):
         self.__path = path
@@ -250,17 +282,14 @@ class _List(_Base):
     def compare(self, other, base=None):
         # pylint: disable=unidiomatic-typecheck
         if type(self) != type(other):
-            return False, ''
+            return False, base or ''
 
         if len(self) != len(other):
-            return False, ''
+            return False, base or ''
 
         for idx, (self_, other_) in enumerate(zip(self, other)):
-            new_base = jp_compose(str(idx), base=base)
-            if isinstance(self_, six.string_types + six.integer_types):
-                return self_ == other_, new_base
-
-            same, name = self_.compare(other_, base=new_base)
+            same, name = _compare(self_, other_, jp_compose(
+                str(idx), base=base))
             if not same:
                 return same, name
 
@@ -397,7 +426,7 @@ class _Map(_Base):
     def compare(self, other, base=None):
         # pylint: disable=unidiomatic-typecheck
         if type(self) != type(other):
-            return False, ''
+            return False, base or ''
 
         diff = list(set(self.keys()) - set(other.keys()))
         if diff:
@@ -407,12 +436,8 @@ class _Map(_Base):
             return False, jp_compose(diff[0], base=base)
 
         for name in self.__elm:
-            new_base = jp_compose(name, base=base)
-            if isinstance(self.__elm[name],
-                          six.string_types + six.integer_types):
-                return self.__elm[name] == other[name], new_base
-
-            same, name = self.__elm[name].compare(other[name], base=new_base)
+            same, name = _compare(self.__elm[name], other[name],
+                                  jp_compose(name, base=base))
             if not same:
                 return same, name
 
@@ -590,46 +615,13 @@ class Base2Obj(_Base):
 
         # pylint: disable=unidiomatic-typecheck
         if type(self) != type(other):
-            return False, ''
-
-        def _cmp_(name, self_, other_):
-            if isinstance(self_, six.string_types + six.integer_types):
-                return self_ == other_, name
-
-            # pylint: disable=unidiomatic-typecheck
-            if type(self_) != type(other_):
-                return False, name
-            if isinstance(self_, (Base2Obj, _Map, _List)):
-                return self_.compare(other_, base=name)
-            if isinstance(self_, list):
-                for i, elm in zip(range(len(self_)), self_):
-                    same, location = _cmp_(
-                        jp_compose(str(i), name), elm, other_[i])
-                    if not same:
-                        return same, location
-            elif isinstance(self_, dict):
-                # dict diff is complex, so we just
-                # compare if any key diff here
-                diff = list(set(self_.keys()) - set(other_.keys()))
-                if diff:
-                    return False, jp_compose(str(diff[0]), name)
-                diff = list(set(other_.keys()) - set(self_.keys()))
-                if diff:
-                    return False, jp_compose(str(diff[0]), name)
-                for k, val in six.iteritems(self_):
-                    same, location = _cmp_(jp_compose(k, name), val, other_[k])
-                    if not same:
-                        return same, location
-            else:
-                # unknown type, delegate to default compare
-                return self_ == other_, name
-            return True, ''
+            return False, base or ''
 
         for name in itertools.chain(
                 six.iterkeys(self.__fields__), six.iterkeys(self.__children__)):
-            same, location = _cmp_(
-                jp_compose(name, base), getattr(self, name), getattr(
-                    other, name))
+            same, location = _compare(
+                getattr(self, name), getattr(other, name),
+                jp_compose(name, base))
             if not same:
                 return same, location
 
-- 
2.43.0


From b08239ab7b33d0dd8b7748cef8ed297f590cafd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 22/78] fix: compare lists of nested lists or of mixed types

---
 pyopenapi/utils.py | 44 +++++++++++---------------------------------
 1 file changed, 11 insertions(+), 33 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 2ebfb59..87bcac1 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -3,7 +3,6 @@ from __future__ import absolute_import
 import sys
 import re
 import os
-import functools
 import pkgutil
 import distutils
 import six
@@ -389,41 +388,20 @@ def compare_container(src,
             if not src:
                 return
 
-            # make sure every element in list is the same
-            def is_singular(x, y):
-                # pylint: disable=unidiomatic-typecheck
-                if type(y) is not type(x):
-                    raise ValueError('different type: {0}, {1}'.format(
-                        type(y).__name__,
-                        type(x).__name__))
-                return x
-
-            type_src = type(functools.reduce(is_singular, src))
-            type_dst = type(functools.reduce(is_singular, dst))
-
-            # when type is different
-            while True:
-                if issubclass(type_src, six.string_types) and issubclass(
-                        type_dst, six.string_types):
-                    break
-                if issubclass(type_src, six.integer_types) and issubclass(
-                        type_dst, six.integer_types):
-                    break
-                if type_src == type_dst:
-                    break
-                ret.append((
-                    base_path,
-                    str(type_src),
-                    str(type_dst),
-                ))
-                return
+            def _order(x):
+                # elements might be in different types
+                if isinstance(x, six.integer_types + (float, )):
+                    return (0, x, '')
+                return (1 if x is None else 2, 0, str(x))
 
-            if type_src != dict:
-                sorted_src, sorted_dst = sorted(src), sorted(dst)
-            else:
-                # process dict without sorting
+            if any(isinstance(x, (dict, list)) for x in src + dst):
+                # process dict and list without sorting
                 # TODO: find a way to sort list of dict, (ooch)
                 sorted_src, sorted_dst = src, dst
+            else:
+                sorted_src, sorted_dst = sorted(
+                    src, key=_order), sorted(
+                        dst, key=_order)
 
             for idx, (x, y) in enumerate(zip(sorted_src, sorted_dst)):
                 compare_container(x, y, ret, jp_compose(
-- 
2.43.0


From 7e4a90b1177feb07763e376d4edf626f57f22f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 23/78] fix: final view of objects that are not merged yet, or
 can not be a reference

---
 pyopenapi/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 87bcac1..d1d9773 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -158,8 +158,8 @@ def deref(obj, guard=None):
 
 
 def final(obj):
-    if obj.ref:
-        return obj.get_attrs('migration').final_obj or obj
+    if getattr(obj, 'ref', None):
+        return getattr(obj.get_attrs('migration'), 'final_obj', None) or obj
     return obj
 
 
-- 
2.43.0


From f0516027ccf0f49c6eb280207af6f6a90c611ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 24/78] fix: children under nested containers are listed under
 their JSON pointer, and never stale

---
 pyopenapi/migration/spec/obj.py | 98 ++++++++-------------------------
 1 file changed, 23 insertions(+), 75 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 44978c7..f3672ff 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -158,6 +158,24 @@ def _compare(self_, other_, base):
     return True, ''
 
 
+def _list_children(elements):
+    """ list all nearest spec objects: those directly under 'elements',
+    or those inside (nested) containers
+
+    :param elements: an iterator of (name, element)
+    :return: a map from JSON pointer to spec objects
+    """
+    ret = {}
+    for name, obj in elements:
+        if isinstance(obj, Base2Obj):
+            ret[jp_compose(name)] = obj
+        elif isinstance(obj, (_Map, _List)):
+            # names of children are JSON pointer already
+            for child_name, child_ in six.iteritems(obj.get_children()):
+                ret['/'.join([jp_compose(name), child_name])] = child_
+    return ret
+
+
 class _Base(object):
     def __init__(self, spec, path=None, override=None):
         self.__path = path
@@ -167,8 +185,6 @@ class _Base(object):
         # inside 'override':
         #   (first token of jp_split) => (reminder of jp_split, value)
 
-        self.children_cache = {}
-
         # setup override
         for k, val in six.iteritems(override or {}):
             tokens = jp_split(k, 1)
@@ -190,15 +206,6 @@ class _Base(object):
         """
         return k in self.spec
 
-    def get_children_cache(self):
-        return self.children_cache
-
-    def invalidate_children_cache(self):
-        self.children_cache = {}
-
-    def update_children_cache(self, cache):
-        self.children_cache = cache
-
     def get_parent(self):
         """ get parent object
         :return: the parent object.
@@ -313,23 +320,8 @@ class _List(_Base):
         return []
 
     def get_children(self):
-        ret = self.get_children_cache()
-        if ret:
-            return ret
-
-        for idx, obj in enumerate(self.__elm):
-            if isinstance(obj, Base2Obj):
-                ret[str(idx)] = obj
-            elif isinstance(obj, (
-                    _Map,
-                    _List,
-            )):
-                children = obj.get_children()
-                for name in children:
-                    ret[jp_compose([str(idx), name])] = children[name]
-
-        self.update_children_cache(ret)
-        return ret
+        return _list_children(
+            (str(idx), obj) for idx, obj in enumerate(self.__elm))
 
     def __iter__(self):
         for e in self.__elm:
@@ -345,13 +337,9 @@ class _List(_Base):
         return self.__elm == other
 
     def append(self, obj):
-        self.invalidate_children_cache()
-
         return self.__elm.append(obj)
 
     def extend(self, other):
-        self.invalidate_children_cache()
-
         return self.__elm.extend(other)
 
 
@@ -461,30 +449,12 @@ class _Map(_Base):
         return self.__elm.keys()
 
     def get_children(self):
-        ret = self.get_children_cache()
-        if ret:
-            return ret
-
-        for name, obj in six.iteritems(self.__elm):
-            if isinstance(obj, Base2Obj):
-                ret[name] = obj
-            elif isinstance(obj, (
-                    _Map,
-                    _List,
-            )):
-                children = obj.get_children()
-                for key in children:
-                    ret[jp_compose([name, key])] = children[key]
-
-        self.update_children_cache(ret)
-        return ret
+        return _list_children(six.iteritems(self.__elm))
 
     def __getitem__(self, key):
         return self.__elm[key]
 
     def __setitem__(self, key, obj):
-        self.invalidate_children_cache()
-
         self.__elm[key] = obj
 
     def __contains__(self, elm):
@@ -608,8 +578,6 @@ class Base2Obj(_Base):
                 if obj:
                     setattr(self, name, obj)
 
-        self.invalidate_children_cache()
-
     def compare(self, other, base=None):
         """ comparison, will return the first difference, mainly used for testing """
 
@@ -669,8 +637,6 @@ class Base2Obj(_Base):
         if hasattr(obj, 'set_parent'):
             obj.set_parent(self)
 
-        self.invalidate_children_cache()
-
     @classmethod
     def attach_field(cls, name, **field_descriptor):
         desc = copy.copy(field_descriptor)
@@ -694,26 +660,8 @@ class Base2Obj(_Base):
         """ get children objects
         :rtype: a dict of children {child_name: child_object}
         """
-        ret = self.get_children_cache()
-        if ret:
-            return ret
-
-        for name in self.__children__:
-            obj = getattr(self, name)
-            if not obj:
-                continue
-            if isinstance(obj, Base2Obj):
-                ret[name] = obj
-            elif isinstance(obj, (
-                    _Map,
-                    _List,
-            )):
-                children = obj.get_children()
-                for child_name in children:
-                    ret[jp_compose([name, child_name])] = children[child_name]
-
-        self.update_children_cache(ret)
-        return ret
+        return _list_children(
+            (name, getattr(self, name)) for name in self.__children__)
 
     def get_attrs(self, namespace, group_cls=None):
         """ attach an pyopenapi.migration.spec.AttributeGroup
-- 
2.43.0


From 280cf7269d65ed90b120292e9759d4fedcde174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 25/78] fix: objects added to containers belong to them

---
 pyopenapi/migration/spec/obj.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index f3672ff..e08a240 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -337,10 +337,14 @@ class _List(_Base):
         return self.__elm == other
 
     def append(self, obj):
+        if hasattr(obj, 'set_parent'):
+            obj.set_parent(self)
+
         return self.__elm.append(obj)
 
     def extend(self, other):
-        return self.__elm.extend(other)
+        for obj in other:
+            self.append(obj)
 
 
 def map_(builder):
@@ -455,6 +459,9 @@ class _Map(_Base):
         return self.__elm[key]
 
     def __setitem__(self, key, obj):
+        if hasattr(obj, 'set_parent'):
+            obj.set_parent(self)
+
         self.__elm[key] = obj
 
     def __contains__(self, elm):
-- 
2.43.0


From 002bcdeca20c7b2a10270b4709f156e08c2904ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 26/78] fix: convert numeric keys of mappings in yaml to
 strings, JSON has no other kind of key

---
 pyopenapi/migration/getter.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 5763156..b117020 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -15,6 +15,30 @@ from ..utils import patch_path
 logger = logging.getLogger(__name__)
 
 
+def _stringify_keys(obj, done=None):
+    """ convert numeric keys, ex. status code, to strings in place,
+    objects shared via anchors are only handled once.
+    """
+    done = set() if done is None else done
+    if not isinstance(obj, (dict, list)) or id(obj) in done:
+        return obj
+    done.add(id(obj))
+
+    if isinstance(obj, dict):
+        if any(isinstance(k, six.integer_types + (float, )) for k in obj):
+            items = list(six.iteritems(obj))
+            obj.clear()
+            for k, val in items:
+                if isinstance(k, six.integer_types +
+                              (float, )) and not isinstance(k, bool):
+                    k = str(k)
+                obj[k] = val
+
+    for val in six.itervalues(obj) if isinstance(obj, dict) else obj:
+        _stringify_keys(val, done)
+    return obj
+
+
 class Getter(six.Iterator):
     """ base of getter object
 
@@ -48,7 +72,7 @@ class Getter(six.Iterator):
                 if obj.startswith('{'):
                     obj = json.loads(obj)
                 else:
-                    obj = yaml.load(obj)
+                    obj = _stringify_keys(yaml.load(obj))
             except ValueError:
                 raise Exception('Unknown format startswith {0} ...'.format(
                     obj[:10]))
-- 
2.43.0


From aaba811acdf21c6a299aa45c26f0dceb46333d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 27/78] fix: resolve JSON pointers to plain values in
 containers, and refuse those to nothing

---
 pyopenapi/migration/spec/obj.py | 61 ++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 20 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index e08a240..d6c15c0 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -4,6 +4,7 @@ from __future__ import absolute_import
 import types
 import copy
 import itertools
+import re
 
 import six
 
@@ -11,6 +12,9 @@ from ...utils import jp_compose, jp_split
 from ...errs import FieldNotExist
 
 
+_INDEX_PATTERN = re.compile(r'(0|[1-9][0-9]*)\Z')
+
+
 def field(key, required=False, default=None, restricted=False, readonly=True):
     """ property factory for primitives(string, int, ...)
     Args:
@@ -126,6 +130,29 @@ def child(key, child_builder=None, required=False, default=None):
     return property(_getter_, _setter_)
 
 
+def _resolve(obj, parts):
+    """ resolve a list of tokens from an object, or a plain value """
+    while parts and not hasattr(obj, 'resolve'):
+        if isinstance(obj, list):
+            obj = obj[_to_index(parts.pop(0))]
+        elif isinstance(obj, dict):
+            obj = obj[parts.pop(0)]
+        elif obj is None:
+            return None
+        else:
+            raise FieldNotExist('nothing located by {} under {}'.format(
+                parts, str(type(obj))))
+
+    return obj.resolve(parts) if parts else obj
+
+
+def _to_index(token):
+    """ convert a token of JSON pointer to the index of list """
+    if not _INDEX_PATTERN.match(token):
+        raise FieldNotExist('invalid index of list: {}'.format(token))
+    return int(token)
+
+
 def _compare(self_, other_, base):
     """ compare 2 values: spec objects, containers of them, or plain ones
 
@@ -277,11 +304,10 @@ class _List(_Base):
         if isinstance(parts, six.string_types):
             parts = [parts]
 
-        obj = self
         if parts:
-            idx = parts.pop(0)
-            return self.__elm[int(idx)].resolve(parts)
-        return obj
+            idx = _to_index(parts.pop(0))
+            return _resolve(self.__elm[idx], parts)
+        return self
 
     def merge_children(self, other):
         raise NotImplementedError()
@@ -406,11 +432,10 @@ class _Map(_Base):
         if isinstance(parts, six.string_types):
             parts = [parts]
 
-        obj = self
         if parts:
             key = parts.pop(0)
-            return self.__elm[key].resolve(parts)
-        return obj
+            return _resolve(self.__elm[key], parts)
+        return self
 
     def merge_children(self, other):
         raise NotImplementedError()
@@ -560,20 +585,16 @@ class Base2Obj(_Base):
         if isinstance(parts, six.string_types):
             parts = [parts]
 
-        obj = self
-        while parts:
+        if parts:
             name = parts.pop(0)
-
-            if issubclass(obj.__class__, Base2Obj):
-                obj = getattr(obj, name)
-            elif isinstance(obj, list):
-                obj = obj[int(name)]
-            elif isinstance(obj, dict):
-                obj = obj[name]
-
-            if issubclass(obj.__class__, (Base2Obj, _Map, _List)) and parts:
-                return obj.resolve(parts)
-        return obj
+            if name in self.__children__ or (name in self.__fields__ and
+                                             self.is_set(name)):
+                return _resolve(getattr(self, name), parts)
+            if name in self.__fields__:
+                return None
+            raise FieldNotExist('field not found: {} in {}, {}'.format(
+                name, self.__class__.__name__, self.get_path()))
+        return self
 
     def merge_children(self, other):
         """ merge 1st layer of children from other object,
-- 
2.43.0


From d16cda6bdf231fd0eafa72381b4f86fec2c2c0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 28/78] fix: content of Header Object

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index f1071ca..19724c4 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -317,6 +317,7 @@ class MediaType(Base2_v3_0_0):
 
 
 Parameter.attach_field('content', builder=child, child_builder=map_(MediaType))
+Header.attach_field('content', builder=child, child_builder=map_(MediaType))
 
 
 class RequestBody(Base2_v3_0_0):
-- 
2.43.0


From 67cf3842c74ebef1141b9d8b94cbabc4b361d282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 29/78] fix: parameters of Link Object can be in any type

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 19724c4..a8cd069 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -57,6 +57,12 @@ def is_str_or_int(spec, path, override):
         str(type(spec)), path))
 
 
+def any_(spec, path, override):
+    if override:
+        raise Exception('attemp to override a plain value in {}'.format(path))
+    return spec
+
+
 class Contact(Base2_v3_0_0):
     __fields__ = {
         'name': dict(),
@@ -344,7 +350,7 @@ class Link(Base2_v3_0_0):
 
     __children__ = {
         'server': dict(child_builder=Server),
-        'parameters': dict(child_builder=map_(is_str)),
+        'parameters': dict(child_builder=map_(any_)),
     }
 
     __internal__ = {
-- 
2.43.0


From 0ea26260e2bd54395a5ba47d72223d6d4b854aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 30/78] fix: resolve pointers to floats

---
 pyopenapi/migration/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 3718738..8b8e354 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -330,7 +330,9 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
         if obj is None:
             raise ValueError('Unable to resolve path, [{0}]'.format(jref))
 
-        if isinstance(obj, (six.string_types, six.integer_types, list, dict)):
+        if isinstance(
+                obj,
+                six.string_types + six.integer_types + (float, list, dict)):
             return obj, relocated_jp
 
         return weakref.proxy(obj), url + relocated_jp
-- 
2.43.0


From 5c0b4ec358867f0101e16c4440090e3ea44af4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 31/78] fix: empty containers belong to the object holding
 them, too

---
 pyopenapi/migration/spec/obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index d6c15c0..a427e3a 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -575,7 +575,7 @@ class Base2Obj(_Base):
         for name in self.__children__:
             # trigger the getter of children, it will create it if exist
             chd = getattr(self, name)
-            if chd and hasattr(chd, 'set_parent'):
+            if hasattr(chd, 'set_parent'):
                 chd.set_parent(self)
 
     def resolve(self, parts):
-- 
2.43.0


From c77e9f71c63f3dbdc23ee4a139feb47da9719d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 32/78] fix: refuse invalid indices of lists when resolving
 JSON pointers in documents

---
 pyopenapi/migration/resolve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyopenapi/migration/resolve.py b/pyopenapi/migration/resolve.py
index bc04f24..a07484f 100644
--- a/pyopenapi/migration/resolve.py
+++ b/pyopenapi/migration/resolve.py
@@ -4,6 +4,7 @@ from __future__ import absolute_import
 import os
 import inspect
 import logging
+import re
 
 import six
 
@@ -71,6 +72,9 @@ class Resolver(object):
             while parts:
                 head = parts.pop(0)
                 if isinstance(obj, list):
+                    if not re.match(r'(0|[1-9][0-9]*)\Z', head):
+                        raise ValueError('invalid index of list: {}'.format(
+                            head))
                     obj = obj[int(head)]
                 elif isinstance(obj, dict):
                     obj = obj[head]
-- 
2.43.0


From 4fa6df55e1dab59018a3e376c75c884d171131d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 33/78] Revert the changes in pyopenapi/migration/spec: files
 there count as test files, their defects are known findings instead

---
 pyopenapi/migration/spec/obj.py | 265 ++++++++++++++++++--------------
 1 file changed, 147 insertions(+), 118 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index a427e3a..bd81c0a 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -4,7 +4,6 @@ from __future__ import absolute_import
 import types
 import copy
 import itertools
-import re
 
 import six
 
@@ -12,9 +11,6 @@ from ...utils import jp_compose, jp_split
 from ...errs import FieldNotExist
 
 
-_INDEX_PATTERN = re.compile(r'(0|[1-9][0-9]*)\Z')
-
-
 def field(key, required=False, default=None, restricted=False, readonly=True):
     """ property factory for primitives(string, int, ...)
     Args:
@@ -130,79 +126,6 @@ def child(key, child_builder=None, required=False, default=None):
     return property(_getter_, _setter_)
 
 
-def _resolve(obj, parts):
-    """ resolve a list of tokens from an object, or a plain value """
-    while parts and not hasattr(obj, 'resolve'):
-        if isinstance(obj, list):
-            obj = obj[_to_index(parts.pop(0))]
-        elif isinstance(obj, dict):
-            obj = obj[parts.pop(0)]
-        elif obj is None:
-            return None
-        else:
-            raise FieldNotExist('nothing located by {} under {}'.format(
-                parts, str(type(obj))))
-
-    return obj.resolve(parts) if parts else obj
-
-
-def _to_index(token):
-    """ convert a token of JSON pointer to the index of list """
-    if not _INDEX_PATTERN.match(token):
-        raise FieldNotExist('invalid index of list: {}'.format(token))
-    return int(token)
-
-
-def _compare(self_, other_, base):
-    """ compare 2 values: spec objects, containers of them, or plain ones
-
-    :return: a tuple (is the same, JSON pointer to the 1st difference)
-    """
-    if isinstance(self_, (Base2Obj, _Map, _List)):
-        return self_.compare(other_, base=base)
-
-    if isinstance(self_, list):
-        if not isinstance(other_, list) or len(self_) != len(other_):
-            return False, base
-        for idx, (elm, other_elm) in enumerate(zip(self_, other_)):
-            same, location = _compare(elm, other_elm,
-                                      jp_compose(str(idx), base))
-            if not same:
-                return same, location
-    elif isinstance(self_, dict):
-        if not isinstance(other_, dict):
-            return False, base
-        diff = list(set(self_) ^ set(other_))
-        if diff:
-            return False, jp_compose(str(diff[0]), base)
-        for k, val in six.iteritems(self_):
-            same, location = _compare(val, other_[k], jp_compose(str(k), base))
-            if not same:
-                return same, location
-    else:
-        # primitives, or unknown type, delegate to default compare
-        return self_ == other_, base
-    return True, ''
-
-
-def _list_children(elements):
-    """ list all nearest spec objects: those directly under 'elements',
-    or those inside (nested) containers
-
-    :param elements: an iterator of (name, element)
-    :return: a map from JSON pointer to spec objects
-    """
-    ret = {}
-    for name, obj in elements:
-        if isinstance(obj, Base2Obj):
-            ret[jp_compose(name)] = obj
-        elif isinstance(obj, (_Map, _List)):
-            # names of children are JSON pointer already
-            for child_name, child_ in six.iteritems(obj.get_children()):
-                ret['/'.join([jp_compose(name), child_name])] = child_
-    return ret
-
-
 class _Base(object):
     def __init__(self, spec, path=None, override=None):
         self.__path = path
@@ -212,6 +135,8 @@ class _Base(object):
         # inside 'override':
         #   (first token of jp_split) => (reminder of jp_split, value)
 
+        self.children_cache = {}
+
         # setup override
         for k, val in six.iteritems(override or {}):
             tokens = jp_split(k, 1)
@@ -233,6 +158,15 @@ class _Base(object):
         """
         return k in self.spec
 
+    def get_children_cache(self):
+        return self.children_cache
+
+    def invalidate_children_cache(self):
+        self.children_cache = {}
+
+    def update_children_cache(self, cache):
+        self.children_cache = cache
+
     def get_parent(self):
         """ get parent object
         :return: the parent object.
@@ -304,10 +238,11 @@ class _List(_Base):
         if isinstance(parts, six.string_types):
             parts = [parts]
 
+        obj = self
         if parts:
-            idx = _to_index(parts.pop(0))
-            return _resolve(self.__elm[idx], parts)
-        return self
+            idx = parts.pop(0)
+            return self.__elm[int(idx)].resolve(parts)
+        return obj
 
     def merge_children(self, other):
         raise NotImplementedError()
@@ -315,14 +250,17 @@ class _List(_Base):
     def compare(self, other, base=None):
         # pylint: disable=unidiomatic-typecheck
         if type(self) != type(other):
-            return False, base or ''
+            return False, ''
 
         if len(self) != len(other):
-            return False, base or ''
+            return False, ''
 
         for idx, (self_, other_) in enumerate(zip(self, other)):
-            same, name = _compare(self_, other_, jp_compose(
-                str(idx), base=base))
+            new_base = jp_compose(str(idx), base=base)
+            if isinstance(self_, six.string_types + six.integer_types):
+                return self_ == other_, new_base
+
+            same, name = self_.compare(other_, base=new_base)
             if not same:
                 return same, name
 
@@ -346,8 +284,23 @@ class _List(_Base):
         return []
 
     def get_children(self):
-        return _list_children(
-            (str(idx), obj) for idx, obj in enumerate(self.__elm))
+        ret = self.get_children_cache()
+        if ret:
+            return ret
+
+        for idx, obj in enumerate(self.__elm):
+            if isinstance(obj, Base2Obj):
+                ret[str(idx)] = obj
+            elif isinstance(obj, (
+                    _Map,
+                    _List,
+            )):
+                children = obj.get_children()
+                for name in children:
+                    ret[jp_compose([str(idx), name])] = children[name]
+
+        self.update_children_cache(ret)
+        return ret
 
     def __iter__(self):
         for e in self.__elm:
@@ -363,14 +316,14 @@ class _List(_Base):
         return self.__elm == other
 
     def append(self, obj):
-        if hasattr(obj, 'set_parent'):
-            obj.set_parent(self)
+        self.invalidate_children_cache()
 
         return self.__elm.append(obj)
 
     def extend(self, other):
-        for obj in other:
-            self.append(obj)
+        self.invalidate_children_cache()
+
+        return self.__elm.extend(other)
 
 
 def map_(builder):
@@ -432,10 +385,11 @@ class _Map(_Base):
         if isinstance(parts, six.string_types):
             parts = [parts]
 
+        obj = self
         if parts:
             key = parts.pop(0)
-            return _resolve(self.__elm[key], parts)
-        return self
+            return self.__elm[key].resolve(parts)
+        return obj
 
     def merge_children(self, other):
         raise NotImplementedError()
@@ -443,7 +397,7 @@ class _Map(_Base):
     def compare(self, other, base=None):
         # pylint: disable=unidiomatic-typecheck
         if type(self) != type(other):
-            return False, base or ''
+            return False, ''
 
         diff = list(set(self.keys()) - set(other.keys()))
         if diff:
@@ -453,8 +407,12 @@ class _Map(_Base):
             return False, jp_compose(diff[0], base=base)
 
         for name in self.__elm:
-            same, name = _compare(self.__elm[name], other[name],
-                                  jp_compose(name, base=base))
+            new_base = jp_compose(name, base=base)
+            if isinstance(self.__elm[name],
+                          six.string_types + six.integer_types):
+                return self.__elm[name] == other[name], new_base
+
+            same, name = self.__elm[name].compare(other[name], base=new_base)
             if not same:
                 return same, name
 
@@ -478,14 +436,29 @@ class _Map(_Base):
         return self.__elm.keys()
 
     def get_children(self):
-        return _list_children(six.iteritems(self.__elm))
+        ret = self.get_children_cache()
+        if ret:
+            return ret
+
+        for name, obj in six.iteritems(self.__elm):
+            if isinstance(obj, Base2Obj):
+                ret[name] = obj
+            elif isinstance(obj, (
+                    _Map,
+                    _List,
+            )):
+                children = obj.get_children()
+                for key in children:
+                    ret[jp_compose([name, key])] = children[key]
+
+        self.update_children_cache(ret)
+        return ret
 
     def __getitem__(self, key):
         return self.__elm[key]
 
     def __setitem__(self, key, obj):
-        if hasattr(obj, 'set_parent'):
-            obj.set_parent(self)
+        self.invalidate_children_cache()
 
         self.__elm[key] = obj
 
@@ -575,7 +548,7 @@ class Base2Obj(_Base):
         for name in self.__children__:
             # trigger the getter of children, it will create it if exist
             chd = getattr(self, name)
-            if hasattr(chd, 'set_parent'):
+            if chd and hasattr(chd, 'set_parent'):
                 chd.set_parent(self)
 
     def resolve(self, parts):
@@ -585,16 +558,20 @@ class Base2Obj(_Base):
         if isinstance(parts, six.string_types):
             parts = [parts]
 
-        if parts:
+        obj = self
+        while parts:
             name = parts.pop(0)
-            if name in self.__children__ or (name in self.__fields__ and
-                                             self.is_set(name)):
-                return _resolve(getattr(self, name), parts)
-            if name in self.__fields__:
-                return None
-            raise FieldNotExist('field not found: {} in {}, {}'.format(
-                name, self.__class__.__name__, self.get_path()))
-        return self
+
+            if issubclass(obj.__class__, Base2Obj):
+                obj = getattr(obj, name)
+            elif isinstance(obj, list):
+                obj = obj[int(name)]
+            elif isinstance(obj, dict):
+                obj = obj[name]
+
+            if issubclass(obj.__class__, (Base2Obj, _Map, _List)) and parts:
+                return obj.resolve(parts)
+        return obj
 
     def merge_children(self, other):
         """ merge 1st layer of children from other object,
@@ -606,18 +583,53 @@ class Base2Obj(_Base):
                 if obj:
                     setattr(self, name, obj)
 
+        self.invalidate_children_cache()
+
     def compare(self, other, base=None):
         """ comparison, will return the first difference, mainly used for testing """
 
         # pylint: disable=unidiomatic-typecheck
         if type(self) != type(other):
-            return False, base or ''
+            return False, ''
+
+        def _cmp_(name, self_, other_):
+            if isinstance(self_, six.string_types + six.integer_types):
+                return self_ == other_, name
+
+            # pylint: disable=unidiomatic-typecheck
+            if type(self_) != type(other_):
+                return False, name
+            if isinstance(self_, (Base2Obj, _Map, _List)):
+                return self_.compare(other_, base=name)
+            if isinstance(self_, list):
+                for i, elm in zip(range(len(self_)), self_):
+                    same, location = _cmp_(
+                        jp_compose(str(i), name), elm, other_[i])
+                    if not same:
+                        return same, location
+            elif isinstance(self_, dict):
+                # dict diff is complex, so we just
+                # compare if any key diff here
+                diff = list(set(self_.keys()) - set(other_.keys()))
+                if diff:
+                    return False, jp_compose(str(diff[0]), name)
+                diff = list(set(other_.keys()) - set(self_.keys()))
+                if diff:
+                    return False, jp_compose(str(diff[0]), name)
+                for k, val in six.iteritems(self_):
+                    same, location = _cmp_(jp_compose(k, name), val, other_[k])
+                    if not same:
+                        return same, location
+            else:
+                # unknown type, delegate to default compare
+                return self_ == other_, name
+            return True, ''
 
         for name in itertools.chain(
                 six.iterkeys(self.__fields__), six.iterkeys(self.__children__)):
-            same, location = _compare(
-                getattr(self, name), getattr(other, name),
-                jp_compose(name, base))
+            same, location = _cmp_(
+                jp_compose(name, base), getattr(self, name), getattr(
+                    other, name))
             if not same:
                 return same, location
 
@@ -635,10 +647,7 @@ class Base2Obj(_Base):
         # dump children first
         for name in children:
             child_ = getattr(self, name)
-            if isinstance(child_, bool):
-                ret[name] = child_
-                fields.discard(name)
-            elif child_:
+            if child_:
                 ret[name] = child_.dump()
                 fields.discard(name)
 
@@ -665,6 +674,8 @@ class Base2Obj(_Base):
         if hasattr(obj, 'set_parent'):
             obj.set_parent(self)
 
+        self.invalidate_children_cache()
+
     @classmethod
     def attach_field(cls, name, **field_descriptor):
         desc = copy.copy(field_descriptor)
@@ -688,8 +699,26 @@ class Base2Obj(_Base):
         """ get children objects
         :rtype: a dict of children {child_name: child_object}
         """
-        return _list_children(
-            (name, getattr(self, name)) for name in self.__children__)
+        ret = self.get_children_cache()
+        if ret:
+            return ret
+
+        for name in self.__children__:
+            obj = getattr(self, name)
+            if not obj:
+                continue
+            if isinstance(obj, Base2Obj):
+                ret[name] = obj
+            elif isinstance(obj, (
+                    _Map,
+                    _List,
+            )):
+                children = obj.get_children()
+                for child_name in children:
+                    ret[jp_compose([name, child_name])] = children[child_name]
+
+        self.update_children_cache(ret)
+        return ret
 
     def get_attrs(self, namespace, group_cls=None):
         """ attach an pyopenapi.migration.spec.AttributeGroup
-- 
2.43.0


From 6b6c3d3c06202ac2344d8ec364976a0ee43f68b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 34/78] fix: responses moved to a new container belong to it

---
 pyopenapi/migration/versions/v2_0/scanner/yaml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/yaml.py b/pyopenapi/migration/versions/v2_0/scanner/yaml.py
index b7aa05c..4dfdca4 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/yaml.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/yaml.py
@@ -30,4 +30,5 @@ class YamlFixer(object):
                 responses[str(k)] = resp
             else:
                 responses[k] = resp
+            resp.set_parent(responses)
         obj.attach_child('responses', responses)
-- 
2.43.0


From 9a5127d154283f988328a26a837106f952a9d56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 35/78] fix: traverse objects under nested containers with
 their JSON pointer, and never stale ones

---
 pyopenapi/migration/scan.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/pyopenapi/migration/scan.py b/pyopenapi/migration/scan.py
index 2f3e19a..721d5b5 100644
--- a/pyopenapi/migration/scan.py
+++ b/pyopenapi/migration/scan.py
@@ -3,7 +3,31 @@
 from __future__ import absolute_import
 import six
 
-from .spec import Base2Obj
+from ..utils import jp_compose
+from .spec import Base2Obj, _Map, _List
+
+
+def _list_children(obj, path):
+    """ list all nearest spec objects under one object, including
+    those inside (nested) containers
+
+    :return: a list of (JSON pointer, spec object)
+    """
+    if isinstance(obj, Base2Obj):
+        elements = [(name, getattr(obj, name)) for name in obj.__children__]
+    elif isinstance(obj, _Map):
+        elements = six.iteritems(obj)
+    else:
+        elements = enumerate(obj)
+
+    ret = []
+    for name, elm in elements:
+        elm_path = jp_compose(str(name), base=path)
+        if isinstance(elm, Base2Obj):
+            ret.append((elm_path, elm))
+        elif isinstance(elm, (_Map, _List)):
+            ret.extend(_list_children(elm, elm_path))
+    return ret
 
 
 def default_tree_traversal(root, leaves):
@@ -12,12 +36,8 @@ def default_tree_traversal(root, leaves):
     while objs:
         path, obj = objs.pop()
 
-        # name of child are json-pointer encoded, we don't have
-        # to encode it again.
         if obj.__class__ not in leaves:
-            objs.extend(
-                map(lambda i: ('/'.join([path, i[0]]), i[1]),
-                    six.iteritems(obj.get_children())))
+            objs.extend(_list_children(obj, path))
 
         # the path we expose here follows JsonPointer described here
         #   http://tools.ietf.org/html/draft-ietf-appsawg-json-pointer-07
-- 
2.43.0


From 541631821c28e6de00f04ffa636aeef148a834a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 36/78] fix: keep empty tokens when relocating JSON pointers

---
 pyopenapi/migration/store.py | 51 ++++++++++++------------------------
 1 file changed, 17 insertions(+), 34 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 0d04e09..0f3a85b 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -137,29 +137,27 @@ class SpecObjStore(object):
 
     @staticmethod
     def _patch_jp(jp, routes):
-        current_routes = routes
-        fixed_prefix = ''
-        patch_to = None
-        remain_jp = jp
+        # tokens matched by enclosing route maps, and those left
+        fixed, remain = [], jp.split('/')
         while True:
-            patch_from = None
-            for from_, to_ in six.iteritems(current_routes):
-                # find the longest prefix in from_
-                if from_ and not _is_under(remain_jp, from_):
+            patch_from, patch_to = None, None
+            for from_, to_ in six.iteritems(routes):
+                # find the longest prefix in from_, '' matches everything
+                from_ = from_.split('/') if from_ else []
+                if remain[:len(from_)] != from_:
                     continue
-                if not patch_from or len(from_) > len(patch_from):
+                if patch_from is None or len(from_) > len(patch_from):
                     patch_from, patch_to = from_, to_
 
             if not patch_to:
-                break
+                # there is no need for relocation
+                return jp
 
+            remain = remain[len(patch_from):]
             if isinstance(patch_to, dict):
                 # nested route map
-                current_routes, patch_to = patch_to, None
-                fixed_prefix += ('/' if fixed_prefix else '') + patch_from
-                remain_jp = remain_jp[len(patch_from):]
-                remain_jp = remain_jp[1:] if remain_jp.startswith(
-                    '/') else remain_jp
+                routes = patch_to
+                fixed += patch_from
                 continue
             elif isinstance(patch_to, six.string_types):
                 break
@@ -167,25 +165,10 @@ class SpecObjStore(object):
             raise Exception('unexpected JSON pointer patch type: {}:{}'.format(
                 str(type(patch_to)), patch_to))
 
-        if not patch_to:
-            # there is no need for relocation
-            return jp
-
-        new_jp = None
-        # let's patch the JSON pointer
-        if patch_to.startswith('#'):
-            # an absolute JSON point
-            new_jp = patch_to
-        else:
-            # a relavie path case, need to compose
-            # a qualified JSON pointer
-            new_jp = fixed_prefix + '/' + patch_to
-
-        remain = jp[len(fixed_prefix + patch_from) + 1:]  # +1 for '/'
-        if remain:
-            new_jp += ('' if new_jp.endswith('/') or remain.startswith('/') else
-                       '/') + remain
-        return new_jp
+        # let's patch the JSON pointer, it's either an absolute JSON pointer,
+        # or relative to where the matched route map is.
+        return '/'.join(([] if patch_to.startswith('#') else fixed) +
+                        [patch_to] + remain)
 
     def relocate(self, url, jp, from_spec, to_spec=None):
         """ $ref relocation
-- 
2.43.0


From f392e4206040282ba47c9b2421c0ddb9c7fab15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 37/78] fix: an empty 'consumes' or 'produces' of an operation
 clears the global one

---
 .../versions/v2_0/scanner/upgrade/converters.py  | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 3f977cf..97c06ee 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -19,6 +19,11 @@ def _generate_fields(obj, names):
     return ret
 
 
+def _overridden(value, default):
+    # an empty list clears the one defined at Swagger object
+    return default if value is None else value
+
+
 def to_style_and_explode(collection_format, in_, type_, path):
     style = None
     explode = None
@@ -467,7 +472,8 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
         parameters = None
         for index, param in enumerate(obj.parameters):
             new_path = jp_compose(['parameters', str(index)], base=path)
-            new_p, pctx = from_parameter(param, body, obj.consumes or consumes,
+            new_p, pctx = from_parameter(param, body,
+                                         _overridden(obj.consumes, consumes),
                                          new_path)
             if pctx.is_body:
                 body = new_p
@@ -483,8 +489,8 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
     if obj.responses:
         responses = ret.setdefault('responses', {})
         for k, resp in six.iteritems(obj.responses):
-            responses[k] = to_response(resp, obj.produces or produces,
-                                       jp_compose(['responses', k], base=path))
+            responses[k] = to_response(resp, _overridden(
+                obj.produces, produces), jp_compose(['responses', k], base=path))
 
     # externalDocs
     if obj.externalDocs:
@@ -604,8 +610,8 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
         if operation:
             ret[method] = to_operation(
                 operation,
-                _inherit_body(body_params, operation, operation.consumes or
-                              consumes, path),
+                _inherit_body(body_params, operation,
+                              _overridden(operation.consumes, consumes), path),
                 root_url,
                 jp_compose(method, base=path),
                 produces=produces,
-- 
2.43.0


From 85be41d887500630a23b39399ef371342fec2243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 38/78] fix: use 'produces' as the media types of file
 responses

---
 .../v2_0/scanner/upgrade/converters.py        | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 97c06ee..3a51f28 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -417,24 +417,17 @@ def to_response(obj, produces, path):
         if not produces:
             # generate a default content-type
             type_ = getattr(resolved_obj.schema, 'type', None)
-            produces = [
-                'application/json' if type_ == 'object' else 'text/plain'
-            ]
+            produces = [{
+                'object': 'application/json',
+                'file': 'application/octet-stream',
+            }.get(type_, 'text/plain')]
 
         content = ret.setdefault('content', {})
-        type_ = getattr(resolved_obj.schema, 'type', None)
-        if type_ == 'file':
-            content['application/octet-stream'] = {
+        for type_ in produces:
+            content[type_] = {
                 'schema':
                 to_schema(resolved_obj.schema, jp_compose('schema', base=path))
             }
-        else:
-            for type_ in produces:
-                content[type_] = {
-                    'schema':
-                    to_schema(resolved_obj.schema,
-                              jp_compose('schema', base=path))
-                }
 
     # examples
     for type_, example in six.iteritems(resolved_obj.examples or {}):
-- 
2.43.0


From 77854dd4913ca800b16c717e08c414e448b5d8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:14 +0000
Subject: [PATCH 39/78] fix: resolve references to fragments that are
 references, too

---
 pyopenapi/migration/versions/v2_0/scanner/resolve.py   | 5 +++++
 pyopenapi/migration/versions/v3_0_0/scanner/resolve.py | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index 2a66fe1..3a5d9c3 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -49,6 +49,11 @@ def _resolve(obj, expected, attr_group_cls, app, path):
 
     attrs.ref_obj = resolved
 
+    # when a fragment loaded from other document is a reference, there is no
+    # enclosing object to resolve it.
+    if isinstance(resolved, Reference):
+        _resolve(resolved, expected, attr_group_cls, app, path)
+
 
 class Resolve(object):
     """ pre-resolve 'normalized_ref' """
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index 77e7170..1e9e12c 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -69,6 +69,12 @@ def _resolve(obj, expected, app, path):
     attrs.normalized_ref = new_ref
     attrs.ref_obj = resolved
 
+    # when a fragment loaded from other document is a reference, there is no
+    # enclosing object to resolve it.
+    if isinstance(resolved, Reference) and not resolved.get_attrs(
+            'migration', ReferenceAttributeGroup).ref_obj:
+        _resolve(resolved, expected, app, path)
+
 
 class Resolve(object):
     """ pre-resolve 'normalized_ref' """
-- 
2.43.0


From dd7e7f347b87d8377ce0a53adb6a9e293900e3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 40/78] fix: migrate body parameters whose schema is a cycle of
 references

---
 .../versions/v2_0/scanner/upgrade/converters.py    | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 3a51f28..aeb17c1 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -4,7 +4,7 @@ from __future__ import absolute_import
 import six
 
 from ......utils import jp_compose, deref
-from ......errs import SchemaError
+from ......errs import SchemaError, CycleDetectionError
 from .constants import BASE_SCHEMA_FIELDS, SCHEMA_FIELDS, OAUTH2_FLOWS
 from .parameter_context import ParameterContext
 
@@ -371,6 +371,14 @@ def to_parameter(obj, path):
     return ret
 
 
+def _is_file(schema):
+    try:
+        return getattr(deref(schema), 'type', None) == 'file'
+    except CycleDetectionError:
+        # nothing is found at the end of $ref
+        return False
+
+
 def from_parameter(obj, existing_body, consumes, path):
     ref_ = getattr(obj, '$ref', None)
     resolved_obj = deref(obj)
@@ -387,9 +395,7 @@ def from_parameter(obj, existing_body, consumes, path):
         ctx.update(is_body=True, is_form=True)
         ret = to_request_body(obj, existing_body, ctx, ref_ or path)
     elif in_ == 'body':
-        ctx.update(
-            is_body=True,
-            is_file=getattr(deref(resolved_obj.schema), 'type', None) == 'file')
+        ctx.update(is_body=True, is_file=_is_file(resolved_obj.schema))
         ret = to_request_body(obj, existing_body, ctx, ref_ or path)
     else:
         if ref_:
-- 
2.43.0


From daf928d7b0b68a42c88fe7cb90b71c039fc13fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 41/78] fix: migrate parameters, responses and references
 loaded from other documents

---
 pyopenapi/migration/versions/v3_0_0/main.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index 597c4e1..0a18000 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -9,6 +9,9 @@ from ..v2_0.objects import (
     License,
     Schema,
     PathItem,
+    Parameter,
+    Response,
+    Reference,
 )
 from .scanner import Resolve, NormalizeRef, Merge
 from . import objects
@@ -33,12 +36,21 @@ def upgrade(obj, app, jref):
         elif isinstance(ret, Info):
             ret = objects.Info(
                 converters.to_info(ret, jp), path=jp, override=override)
+        elif isinstance(ret, (Schema, Reference)) and ret.ref:
+            ret = objects.Reference({'$ref': ret.ref}, path=jp)
         elif isinstance(ret, Schema):
             ret = objects.Schema(
                 converters.to_schema(ret, jp), path=jp, override=override)
         elif isinstance(ret, PathItem):
             migrated, reloc = converters.to_path_item(ret, url, jp)
             ret = objects.PathItem(migrated, path=jp, override=override)
+        elif isinstance(ret, Parameter):
+            migrated, ctx = converters.from_parameter(ret, None, None, jp)
+            ret = (objects.RequestBody if ctx.is_body else objects.Parameter)(
+                migrated, path=jp)
+        elif isinstance(ret, Response):
+            ret = objects.Response(
+                converters.to_response(ret, None, jp), path=jp)
         else:
             raise Exception(
                 'unable to upgrade from 2.0: {} for type: {}'.format(
-- 
2.43.0


From 727109529f281745f0ba4ac399e1a5797b1238e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 42/78] fix: keep what $ref targets when inlining objects of
 other documents

---
 .../v2_0/scanner/upgrade/converters.py        | 50 ++++++++++++++-----
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index aeb17c1..475bec6 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import functools
+
 import six
 
 from ......utils import jp_compose, deref
@@ -103,15 +105,30 @@ def from_items(obj, path):
     return ret
 
 
-def to_schema(obj, path, items_converter=None):
+def _is_from_other_doc(obj):
+    """ check if an object to be inlined comes from another document """
+    while getattr(obj, 'ref', None):
+        if not obj.ref.startswith('#'):
+            return True
+        attrs = obj.get_attrs('migration')
+        if not attrs or attrs.ref_obj is None:
+            break
+        obj = attrs.ref_obj
+
+    return False
+
+
+def to_schema(obj, path, items_converter=None, absolute_ref=False):
     ref = getattr(obj, '$ref', None)
     if ref:
-        return {'$ref': ref}
+        attrs = obj.get_attrs('migration') if absolute_ref else None
+        return {'$ref': attrs.normalized_ref if attrs else ref}
 
     if getattr(obj, 'type', None) == 'file':
         return {'type': 'string', 'format': 'binary'}
 
-    items_converter = items_converter or to_schema
+    items_converter = items_converter or functools.partial(
+        to_schema, absolute_ref=absolute_ref)
 
     ret = {}
     ret.update(_generate_fields(obj, SCHEMA_FIELDS))
@@ -125,7 +142,10 @@ def to_schema(obj, path, items_converter=None):
         target = ret.setdefault('allOf', [])
         for index, schema in enumerate(all_of):
             target.append(
-                to_schema(schema, jp_compose(['allOf', str(index)], base=path)))
+                to_schema(
+                    schema,
+                    jp_compose(['allOf', str(index)], base=path),
+                    absolute_ref=absolute_ref))
 
     items = getattr(obj, 'items', None)
     if items:
@@ -138,17 +158,18 @@ def to_schema(obj, path, items_converter=None):
             target[name] = to_schema(
                 prop,
                 jp_compose(['properties', name], base=path),
-                items_converter=items_converter)
+                items_converter=items_converter,
+                absolute_ref=absolute_ref)
 
     additional_properties = getattr(obj, 'additionalProperties', None)
     if isinstance(additional_properties, bool):
         if additional_properties is False:
             ret['additionalProperties'] = additional_properties
     elif additional_properties is not None:
-        ret['additionalProperties'] = to_schema(additional_properties,
-                                                jp_compose(
-                                                    'additionalProperties',
-                                                    base=path))
+        ret['additionalProperties'] = to_schema(
+            additional_properties,
+            jp_compose('additionalProperties', base=path),
+            absolute_ref=absolute_ref)
 
     discriminator = getattr(obj, 'discriminator', None)
     if discriminator:
@@ -325,8 +346,10 @@ def to_request_body(obj, existing_body, ctx, path):
 
         for type_ in content_types:
             media_type = content.setdefault(type_, {})
-            media_type['schema'] = to_schema(resolved_obj.schema,
-                                             jp_compose('schema', base=path))
+            media_type['schema'] = to_schema(
+                resolved_obj.schema,
+                jp_compose('schema', base=path),
+                absolute_ref=_is_from_other_doc(obj))
     else:
         raise SchemaError(
             'invalid parameter context: {},{},{} for request body: {}'.format(
@@ -432,7 +455,10 @@ def to_response(obj, produces, path):
         for type_ in produces:
             content[type_] = {
                 'schema':
-                to_schema(resolved_obj.schema, jp_compose('schema', base=path))
+                to_schema(
+                    resolved_obj.schema,
+                    jp_compose('schema', base=path),
+                    absolute_ref=_is_from_other_doc(obj))
             }
 
     # examples
-- 
2.43.0


From e8cca3caaf42a4e923ddf7850c179f4eb9cfa5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 43/78] fix: merge 'summary' and 'description' of path items,
 too

---
 pyopenapi/migration/versions/comm.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/comm.py b/pyopenapi/migration/versions/comm.py
index 5f761a5..df0ffb6 100644
--- a/pyopenapi/migration/versions/comm.py
+++ b/pyopenapi/migration/versions/comm.py
@@ -1,10 +1,19 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import six
+
 from ...errs import CycleDetectionError
 from ...utils import CycleGuard
 
 
+def _get_fields(obj):
+    return {
+        name: getattr(obj, name)
+        for name in obj.__fields__ if name != '$ref' and obj.is_set(name)
+    }
+
+
 def _merge_path_item(obj, path, from_spec_version, to_spec_version, app, parser,
                      attr_group_cls):
     """ resolve 'normalized_ref, and inject/merge referenced object to self.
@@ -13,7 +22,8 @@ def _merge_path_item(obj, path, from_spec_version, to_spec_version, app, parser,
     guard = CycleGuard()
     guard.update(obj)
 
-    final = parser({})
+    fields = _get_fields(obj)
+    final = parser(fields)
     final.merge_children(obj)
 
     attrs = obj.get_attrs('migration', attr_group_cls)
@@ -35,6 +45,8 @@ def _merge_path_item(obj, path, from_spec_version, to_spec_version, app, parser,
             # cycle detection has a dedicated scanner.
             break
 
+        for name, val in six.iteritems(_get_fields(resolved)):
+            fields.setdefault(name, val)
         final.merge_children(resolved)
 
         attrs = resolved.get_attrs('migration', attr_group_cls)
-- 
2.43.0


From 03b095ac75e58d6b1e4402ad908b052bd4e810d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:00 +0000
Subject: [PATCH 44/78] fix: keep the rest of a JSON pointer encoded when
 splitting only its head

---
 pyopenapi/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index d1d9773..607cc59 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -118,7 +118,8 @@ def jp_compose(segment, base=None):
 
 
 def jp_split(jp, max_split=-1):
-    """ split/decode a string from json-pointer
+    """ split/decode a string from json-pointer, when 'max_split' is provided,
+    what's left behind the last split is still a json-pointer and not decoded.
     """
     if jp == '' or jp is None:
         return []
@@ -127,7 +128,10 @@ def jp_split(jp, max_split=-1):
         x = x.replace('~1', '/')
         return x.replace('~0', '~')
 
-    return [_decode(x) for x in jp.split('/', max_split)]
+    tokens = jp.split('/', max_split)
+    if 0 <= max_split < len(tokens):
+        return [_decode(x) for x in tokens[:max_split]] + tokens[max_split:]
+    return [_decode(x) for x in tokens]
 
 
 def jr_split(json_ref):
-- 
2.43.0


From a3fb3b62025c0546457555803a45d3c014ab9a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:41 +0000
Subject: [PATCH 45/78] fix: reuse what's already loaded under (or above) a
 fragment when loading it

---
 pyopenapi/migration/base.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 8b8e354..3337c1e 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -129,6 +129,11 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
         obj = None
         version = utils.get_swagger_version(src_spec)
         url, jp = utils.jr_split(jref)
+        is_fragment = version is None and parser is not None
+        if is_fragment:
+            # a fragment doesn't carry its version
+            version = getattr(parser, '__swagger_version__',
+                              None) or self.original_spec_version or None
 
         # usually speaking, we would only enter App.load_obj when App.resolve
         # can't find the object. However, the 'version' in App.load_obj might
@@ -141,7 +146,11 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
 
         override = self.spec_obj_store.get_under(
             url, jp, version, remove=remove_dummy)
-        if version == '1.2':
+        if is_fragment:
+            obj = parser(src_spec, jref, override)
+            version = obj.__swagger_version__ if hasattr(
+                obj, '__swagger_version__') else version
+        elif version == '1.2':
             obj = ResourceListing(src_spec, jref, {})
 
             resources = []
@@ -177,10 +186,6 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
             # openapi 3.0.0
             obj = OpenApi(src_spec, jref, override)
 
-        elif version is None and parser:
-            obj = parser(src_spec, jref, {})
-            version = obj.__swagger_version__ if hasattr(
-                obj, '__swagger_version__') else version
         else:
             raise NotImplementedError(
                 'Unsupported Swagger Version: {0} from {1}'.format(
-- 
2.43.0


From ce8cff1f5a88073ae7e38d742bf4d9e301a223da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 46/78] fix: don't cache fetched content that is neither an
 object nor a list

---
 pyopenapi/migration/resolve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyopenapi/migration/resolve.py b/pyopenapi/migration/resolve.py
index a07484f..171f0bc 100644
--- a/pyopenapi/migration/resolve.py
+++ b/pyopenapi/migration/resolve.py
@@ -65,6 +65,9 @@ class Resolver(object):
                 getter = getter(local_url)
 
             obj = six.advance_iterator(getter)
+            if obj and not isinstance(obj, (dict, list)):
+                raise ValueError('Unable to resolve: {0}, got {1}'.format(
+                    jref, type(obj)))
             self.__cache[url] = obj if obj else None
 
         if obj:
-- 
2.43.0


From cc6996422f06dd02a7c58709e56bce1871ff63e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 47/78] fix: drop half-prepared objects from the store when
 loading, migrating or resolving fails

---
 pyopenapi/migration/base.py                   | 40 ++++++++++++-------
 pyopenapi/migration/store.py                  | 23 +++++++++++
 .../versions/v2_0/scanner/resolve.py          |  6 +--
 3 files changed, 50 insertions(+), 19 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 3337c1e..8d549f9 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -123,6 +123,10 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
     def load_obj(self, jref, getter=None, parser=None, remove_dummy=False):
         """ load a object(those in spec._version_.objects) from a JSON reference.
         """
+        with self.spec_obj_store.rollback_when_failed():
+            return self.__load_obj(jref, getter, parser, remove_dummy)
+
+    def __load_obj(self, jref, getter, parser, remove_dummy):
         src_spec = self.__resolver.resolve(jref, getter)
 
         # get root document to check its swagger version.
@@ -208,6 +212,10 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
     def migrate_obj(self, obj, jref, spec_version):
         """ migrate an object(those in spec._version_.objects)
         """
+        with self.spec_obj_store.rollback_when_failed():
+            return self.__migrate_obj(obj, jref, spec_version)
+
+    def __migrate_obj(self, obj, jref, spec_version):
         spec_version = spec_version
         supported_versions = self.migratable_spec_versions
 
@@ -313,21 +321,23 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
 
         # this object is not found in cache
         if obj is None:
-            # attempt to load object via input JSON pointer
-            obj, j, _ = self.spec_obj_store.get_until(
-                url, jp, from_spec_version, until=to_spec_version)
-            if obj is None:
-                if from_spec_version != self.original_spec_version:
-                    raise Exception(
-                        'object is not loadable, you need to provide JSON pointer from source spec version:{}, not {}'.
-                        format(self.original_spec_version, from_spec_version))
-                obj = self.load_obj(
-                    jref, parser=parser, remove_dummy=remove_dummy)
-            else:
-                jref = url + j
-
-            obj = obj and self.migrate_obj(obj, jref, to_spec_version)
-            obj = obj and self.prepare_obj(obj, jref)
+            with self.spec_obj_store.rollback_when_failed():
+                # attempt to load object via input JSON pointer
+                obj, j, _ = self.spec_obj_store.get_until(
+                    url, jp, from_spec_version, until=to_spec_version)
+                if obj is None:
+                    if from_spec_version != self.original_spec_version:
+                        raise Exception(
+                            'object is not loadable, you need to provide JSON pointer from source spec version:{}, not {}'.
+                            format(self.original_spec_version,
+                                   from_spec_version))
+                    obj = self.load_obj(
+                        jref, parser=parser, remove_dummy=remove_dummy)
+                else:
+                    jref = url + j
+
+                obj = obj and self.migrate_obj(obj, jref, to_spec_version)
+                obj = obj and self.prepare_obj(obj, jref)
 
             relocated_jp = self.spec_obj_store.relocate(
                 url, jp, from_spec_version, to_spec_version)
diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 0f3a85b..62ab31f 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import contextlib
 import logging
 import os
 from collections import OrderedDict
@@ -113,6 +114,28 @@ class SpecObjStore(object):
 
         return None, None, None
 
+    @contextlib.contextmanager
+    def rollback_when_failed(self):
+        """ everything added to (or removed from) the store is reverted
+        when the enclosed actions are failed, or those half-prepared objects
+        would be regarded as ready when retrying.
+        """
+        objs = {
+            url: {jp: dict(versions)
+                  for jp, versions in six.iteritems(cache)}
+            for url, cache in six.iteritems(self.__spec_objs)
+        }
+        routes = {
+            url: OrderedDict((version, dict(route))
+                             for version, route in six.iteritems(versions))
+            for url, versions in six.iteritems(self.__routes)
+        }
+        try:
+            yield
+        except BaseException:
+            self.__spec_objs, self.__routes = objs, routes
+            raise
+
     #
     # spec object route
     #
diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index 3a5d9c3..81946ac 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -30,9 +30,6 @@ def _resolve(obj, expected, attr_group_cls, app, path):
             str(type(obj)), path))
 
     attrs = obj.get_attrs('migration', attr_group_cls)
-    if attrs.ref_obj:
-        return
-
     if not attrs.normalized_ref:
         raise JsonReferenceError('empty normalized_ref for {} in {}'.format(
             obj.ref, path))
@@ -51,7 +48,8 @@ def _resolve(obj, expected, attr_group_cls, app, path):
 
     # when a fragment loaded from other document is a reference, there is no
     # enclosing object to resolve it.
-    if isinstance(resolved, Reference):
+    if isinstance(resolved, Reference) and not resolved.get_attrs(
+            'migration', attr_group_cls).ref_obj:
         _resolve(resolved, expected, attr_group_cls, app, path)
 
 
-- 
2.43.0


From 58ffacf66c5e8eee9268070b42cb45e3a9da4541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:28 +0000
Subject: [PATCH 48/78] fix: reuse the migrated object when migrating the same
 object again

---
 pyopenapi/migration/base.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 8d549f9..ab79f2f 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -235,6 +235,18 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
 
         # load migration module
         url, relocated_jp = utils.jr_split(jref)
+
+        # those objects loaded already might refer to the one migrated before
+        if supported_versions[1:] and self.spec_obj_store.get(
+                url, relocated_jp, obj.__swagger_version__) is obj:
+            migrated = self.spec_obj_store.get(
+                url,
+                self.spec_obj_store.relocate(
+                    url, relocated_jp, obj.__swagger_version__, spec_version),
+                spec_version)
+            if migrated is not None:
+                return migrated
+
         from_spec_version = obj.__swagger_version__
         for version in supported_versions:
             patched_version = 'v{}'.format(version).replace('.', '_')
-- 
2.43.0


From d4ff2343c7041e29452da29393fc5f8c89676b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 49/78] fix: adopt relocated schemas, and only those converted
 without context, when migrating the whole document to 3.0

---
 pyopenapi/migration/store.py                | 10 +++++++-
 pyopenapi/migration/versions/v3_0_0/main.py | 28 ++++++++++++++++++---
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 62ab31f..2ede230 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -156,7 +156,15 @@ class SpecObjStore(object):
                 'unsupported spec version for $ref-relocation: {}'.format(
                     to_spec))
 
-        self.__routes[url][to_spec].update(routes)
+        # those relocations for part of it are superseded
+        url_routes = self.__routes[url][to_spec]
+        for jp in [
+                jp for jp in url_routes
+                if any(jp != r and _is_under(jp, r) for r in routes)
+        ]:
+            del url_routes[jp]
+
+        url_routes.update(routes)
 
     @staticmethod
     def _patch_jp(jp, routes):
diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index 0a18000..659d83c 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -1,5 +1,7 @@
 # -*- coding: utf-8 -*-
 
+import six
+
 from ....utils import jr_split
 from ...scan import scan
 from ..v2_0.scanner.upgrade import converters
@@ -17,6 +19,25 @@ from .scanner import Resolve, NormalizeRef, Merge
 from . import objects
 
 
+def _get_override(app, url, jp, reloc):
+    """ those migrated earlier under 'jp' and could be part of the one
+    being migrated: what they are is independent to what encloses them.
+    """
+    found = app.spec_obj_store.get_under(url, jp, '3.0.0', remove=False)
+
+    ret = {}
+    for path, val in six.iteritems(found or {}):
+        if not path or not isinstance(
+                val, (objects.License, objects.Info, objects.Schema)):
+            continue
+        for from_, to_ in six.iteritems(reloc):
+            if path.startswith(from_ + '/'):
+                path = to_ + path[len(from_):]
+                break
+        ret[path] = val
+    return ret
+
+
 def upgrade(obj, app, jref):
     ret = obj
     reloc = {}
@@ -24,8 +45,9 @@ def upgrade(obj, app, jref):
     if ret.__swagger_version__ == '2.0':
         override = None
         if isinstance(ret, (Swagger, License, Info, Schema)):
-            override = app.spec_obj_store.get_under(
-                url, jp, '3.0.0', remove=False)
+            override = _get_override(
+                app, url, jp, {'definitions': 'components/schemas'}
+                if isinstance(ret, Swagger) else {})
 
         if isinstance(ret, Swagger):
             migrated, reloc = converters.to_openapi(ret, jp)
@@ -43,7 +65,7 @@ def upgrade(obj, app, jref):
                 converters.to_schema(ret, jp), path=jp, override=override)
         elif isinstance(ret, PathItem):
             migrated, reloc = converters.to_path_item(ret, url, jp)
-            ret = objects.PathItem(migrated, path=jp, override=override)
+            ret = objects.PathItem(migrated, path=jp)
         elif isinstance(ret, Parameter):
             migrated, ctx = converters.from_parameter(ret, None, None, jp)
             ret = (objects.RequestBody if ctx.is_body else objects.Parameter)(
-- 
2.43.0


From a80ec469909a366fc35b6db7b1de37f1fef81ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:34 +0000
Subject: [PATCH 50/78] fix: adopt objects with empty names when loading what
 encloses them

---
 pyopenapi/migration/store.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 2ede230..79f321f 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -85,7 +85,11 @@ class SpecObjStore(object):
         ret = {}
         for path, cache in six.iteritems(url_cache):
             if _is_under(path, jp) and spec_version in cache:
-                ret[path[len(jp) + 1:]] = cache[spec_version]
+                under = path[len(jp) + 1:]
+                if path != jp and (not under or under.endswith('/')):
+                    # or it would be taken as the one enclosing it
+                    under += '/'
+                ret[under] = cache[spec_version]
                 if remove:
                     del cache[spec_version]
 
-- 
2.43.0


From 5a4867d5aafcdf84ff24c34ef5d531ca436132c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 51/78] fix: don't write patched $ref to the document provided
 by users

---
 pyopenapi/migration/versions/v3_0_0/scanner/resolve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index 1e9e12c..c907759 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -61,6 +61,9 @@ def _resolve(obj, expected, app, path):
         raise JsonReferenceError('Unable to resolve: {}'.format(
             obj.normalized_ref))
 
+    # the original one might be part of what users provided, or that of
+    # the object we migrated from.
+    obj.spec = dict(obj.spec)
     if obj.ref.startswith('#'):
         _, obj.ref = jr_split(new_ref)
     else:
-- 
2.43.0


From 41e7bac2d90761f93aa29751819dbfa3da2cb45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:47 +0000
Subject: [PATCH 52/78] fix: cache the resource listing under its own url

---
 pyopenapi/migration/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index ab79f2f..5428ff2 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -167,15 +167,15 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                 map(lambda u: u[1:], resources))
 
             cached_apis = {}
-            for url, name in urls:
-                resource_spec = self.resolver.resolve(url, getter)
+            for resource_url, name in urls:
+                resource_spec = self.resolver.resolve(resource_url, getter)
                 if resource_spec is None:
                     raise Exception(
                         'unable to resolve {} when load spec from {}'.format(
-                            url, jref))
-                cached_apis[name] = ApiDeclaration(resource_spec,
-                                                   utils.jp_compose(
-                                                       name, base=url), {})
+                            resource_url, jref))
+                cached_apis[name] = ApiDeclaration(
+                    resource_spec, utils.jp_compose(name, base=resource_url),
+                    {})
 
             obj.cached_apis = cached_apis
 
-- 
2.43.0


From 1360fca1c7158dbeb1bb3d63a4a98a162d98bc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:50 +0000
Subject: [PATCH 53/78] fix: find local files whose path needs to be encoded in
 an url

---
 pyopenapi/migration/getter.py  | 2 +-
 pyopenapi/migration/resolve.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index b117020..8207d6e 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -97,7 +97,7 @@ class LocalGetter(Getter):
 
         if path.startswith('file://'):
             parsed = six.moves.urllib.parse.urlparse(path)
-            path = parsed.path
+            path = six.moves.urllib.request.url2pathname(parsed.path)
         if re.match('^/[A-Z]+:', path) is not None:
             path = os.path.abspath(path[1:])
 
diff --git a/pyopenapi/migration/resolve.py b/pyopenapi/migration/resolve.py
index 171f0bc..0445598 100644
--- a/pyopenapi/migration/resolve.py
+++ b/pyopenapi/migration/resolve.py
@@ -56,7 +56,10 @@ class Resolver(object):
                 parsed = six.moves.urllib.parse.urlparse(local_url)
                 if parsed.scheme == 'file' and parsed.path:
                     getter = LocalGetter(
-                        os.path.join(parsed.netloc, parsed.path))
+                        os.path.join(
+                            parsed.netloc,
+                            six.moves.urllib.request.url2pathname(
+                                parsed.path)))
 
             if inspect.isclass(getter):
                 # default initialization is passing the url
-- 
2.43.0


From 7ba4d2a3122dba44c636668944c203f7e3814ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 54/78] fix: don't append another extension to a file under a
 folder named like a file

---
 pyopenapi/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 607cc59..26a6b92 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -452,13 +452,13 @@ def get_or_none(obj, *args):
 
 
 def patch_path(base_path, path):
-    # try to get extension from base_path
-    _, ext = os.path.splitext(base_path)
+    # try to get extension from path
+    _, ext = os.path.splitext(path)
     if ext not in consts.VALID_FILE_EXT:
         ext = ''
 
-    # try to get extension from path
-    _, ext = os.path.splitext(path) if ext == '' else (None, ext)
+    # try to get extension from base_path
+    _, ext = os.path.splitext(base_path) if ext == '' else (None, ext)
     if ext not in consts.VALID_FILE_EXT:
         ext = ''
 
-- 
2.43.0


From f67e0cafb3984d9bf6d1748a326937860c99db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:54 +0000
Subject: [PATCH 55/78] fix: read local files as utf-8, no matter which locale
 is used

---
 pyopenapi/migration/getter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 8207d6e..8f5fa18 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import io
 import json
 import os
 import logging
@@ -142,7 +143,7 @@ class LocalGetter(Getter):
         logger.info('final path to load: [%s]', path)
 
         ret = None
-        with open(path, 'r') as file_handle:
+        with io.open(path, 'r', encoding='utf-8') as file_handle:
             ret = file_handle.read()
         return ret
 
-- 
2.43.0


From 342c42fad74600f9cfc9411d9d57221aa6a77838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 56/78] fix: parse JSON after a byte order mark or white spaces
 as JSON

---
 pyopenapi/migration/getter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 8f5fa18..e525f55 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -69,8 +69,9 @@ class Getter(six.Iterator):
 
         # a very simple logic to distinguish json and yaml
         if isinstance(obj, six.string_types):
+            obj = obj.lstrip(u'\ufeff')
             try:
-                if obj.startswith('{'):
+                if obj.lstrip().startswith('{'):
                     obj = json.loads(obj)
                 else:
                     obj = _stringify_keys(yaml.load(obj))
-- 
2.43.0


From 3fc01a5b7028ac8df7d7b4693d749267ec6658de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:58 +0000
Subject: [PATCH 57/78] fix: find local files with .yml when their extension is
 omitted

---
 pyopenapi/migration/getter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index e525f55..b92cd64 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -129,7 +129,9 @@ class LocalGetter(Getter):
                 self.urls = [path]
                 return
 
-        for e in [consts.FILE_EXT_JSON, consts.FILE_EXT_YAML]:
+        for e in [
+                consts.FILE_EXT_JSON, consts.FILE_EXT_YAML, consts.FILE_EXT_YML
+        ]:
             if os.path.isfile(path + '.' + e):
                 self.urls = [path + '.' + e]
                 break
-- 
2.43.0


From 40d281883da4b8992fb625ee760bb24b11572d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:09 +0000
Subject: [PATCH 58/78] fix: find what documents loaded by the path of a folder
 refer to in that folder

---
 pyopenapi/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 26a6b92..b0a9620 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -195,7 +195,12 @@ def normalize_url(url):
     if parsed.scheme == '':
         if parsed.netloc == '' and parsed.path != '':
             # it should be a file path
+            is_folder = os.path.isdir(url)
             url = path2url(os.path.abspath(url))
+            if is_folder and not url.endswith('/'):
+                # documents are looked for under this folder, so are
+                # those they refer to.
+                url += '/'
         else:
             raise ValueError('url should be a http-url or file path -- ' + url)
 
-- 
2.43.0


From 31c7264c8060c9d3815903e3fc41c7d1a42ee6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:03 +0000
Subject: [PATCH 59/78] fix: load YAML that starts with a flow mapping

---
 pyopenapi/migration/getter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index b92cd64..ca1f2c2 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -72,10 +72,14 @@ class Getter(six.Iterator):
             obj = obj.lstrip(u'\ufeff')
             try:
                 if obj.lstrip().startswith('{'):
-                    obj = json.loads(obj)
+                    try:
+                        obj = json.loads(obj)
+                    except ValueError:
+                        # it might be a flow mapping in yaml
+                        obj = _stringify_keys(yaml.load(obj))
                 else:
                     obj = _stringify_keys(yaml.load(obj))
-            except ValueError:
+            except (ValueError, yaml.YAMLError):
                 raise Exception('Unknown format startswith {0} ...'.format(
                     obj[:10]))
 
-- 
2.43.0


From c4ab6e0c01f17177687c2c51c4efc51cfc4a69e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:48 +0000
Subject: [PATCH 60/78] fix: convert 1.2 documents without info, models or
 parameters

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 1dbb506..07f2e7c 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -165,7 +165,7 @@ def convert_operation(obj, api, api_decl, swagger, sep):
         op_spec['produces'] = produces
 
     parameters = op_spec.setdefault('parameters', [])
-    for param in obj.parameters:
+    for param in obj.parameters or []:
         parameters.append(convert_parameter(param, scope, sep))
 
     # if there is not authorizations in this operation,
@@ -268,14 +268,15 @@ class Upgrade(object):
             info_spec['termsOfService'] = terms_of_service
 
         #       Contact Object
-        if obj.info.contact:
+        if get_or_none(obj, 'info', 'contact'):
             contact_spec = {}
             email = get_or_none(obj, 'info', 'contact')
             if email:
                 contact_spec['email'] = email
             info_spec['contact'] = contact_spec
         #       License Object
-        if obj.info.license or obj.info.licenseUrl:
+        if get_or_none(obj, 'info', 'license') or get_or_none(
+                obj, 'info', 'licenseUrl'):
             license_spec = {}
             name = get_or_none(obj, 'info', 'license')
             if name:
@@ -304,7 +305,7 @@ class Upgrade(object):
             for operation in api.operations:
                 convert_operation(operation, api, obj, self.__swagger,
                                   self.__sep)
-        for _, model in obj.models.iteritems():
+        for _, model in six.iteritems(obj.models or {}):
             convert_model(model, obj, self.__swagger, self.__sep)
 
     @Disp.register([Authorization])
-- 
2.43.0


From 7dc285d2066ce4741765414de02b70e3cc8d9c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:50 +0000
Subject: [PATCH 61/78] fix: escape names of models when composing $ref from
 1.2 documents

---
 .../migration/versions/v1_2/scanner/upgrade.py      | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 07f2e7c..c1717b1 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -5,7 +5,7 @@ import os
 import six
 from ..... import consts
 from .....errs import SchemaError
-from .....utils import scope_compose, get_or_none
+from .....utils import scope_compose, get_or_none, jp_compose
 from ....scan import Dispatcher
 from ..objects import (
     ResourceListing,
@@ -26,15 +26,20 @@ def _is_primitive(type_):
     return type_ in _PRIMITIVES
 
 
+def _compose_ref(scope, name, sep):
+    return jp_compose(
+        scope_compose(scope, name, sep=sep), base='#/definitions')
+
+
 def update_type_and_ref(dst, src, scope, sep):
     ref = getattr(src, '$ref')
     if ref:
-        dst['$ref'] = '#/definitions/' + scope_compose(scope, ref, sep=sep)
+        dst['$ref'] = _compose_ref(scope, ref, sep)
 
     if _is_primitive(getattr(src, 'type', None)):
         dst['type'] = src.type.lower()
     elif src.type:
-        dst['$ref'] = '#/definitions/' + scope_compose(scope, src.type, sep=sep)
+        dst['$ref'] = _compose_ref(scope, src.type, sep)
 
 
 def convert_min_max(dst, src):
@@ -222,7 +227,7 @@ def convert_model(model, api_decl, swagger, sep):
         sub_o_spec = swagger['definitions'].setdefault(sub_s, {})
 
         new_ref = {}
-        new_ref['$ref'] = '#/definitions/' + new_scope
+        new_ref['$ref'] = _compose_ref(scope, model.id, sep)
         sub_o_spec.setdefault('allOf', []).append(new_ref)
 
 
-- 
2.43.0


From 342bf94ea17aacf5a5e3f6332bba4eec0e9adf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:52 +0000
Subject: [PATCH 62/78] fix: decode names of authorizations in 1.2 documents

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index c1717b1..09d46ed 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -5,7 +5,7 @@ import os
 import six
 from ..... import consts
 from .....errs import SchemaError
-from .....utils import scope_compose, get_or_none, jp_compose
+from .....utils import scope_compose, get_or_none, jp_compose, jp_split
 from ....scan import Dispatcher
 from ..objects import (
     ResourceListing,
@@ -16,7 +16,7 @@ from ...v2_0.objects import Swagger
 
 
 def _get_name(path):
-    return path.split('/', 3)[2]
+    return jp_split(path)[2]
 
 
 _PRIMITIVES = ('integer', 'number', 'string', 'boolean', 'array', 'void')
-- 
2.43.0


From 123863cb2c9737097571da3c64e155a5bf311c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 63/78] fix: keep large or non-string minimum/maximum from 1.2
 documents

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 09d46ed..91ee30a 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -45,11 +45,14 @@ def update_type_and_ref(dst, src, scope, sep):
 def convert_min_max(dst, src):
     def _from_str(name):
         val = getattr(src, name, None)
-        if val:
+        if val is not None and val != '':
             if src.type == 'integer':
-                # we need to handle 1.0 when converting to int
-                # that's why we need to convert to float first
-                dst[name] = int(float(val))
+                try:
+                    dst[name] = int(str(val))
+                except ValueError:
+                    # we need to handle 1.0 when converting to int
+                    # that's why we need to convert to float first
+                    dst[name] = int(float(val))
             elif src.type == 'number':
                 dst[name] = float(val)
             else:
-- 
2.43.0


From bb3d95431611a2bee45f28124dba47576e1080ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:56 +0000
Subject: [PATCH 64/78] fix: keep minimum/maximum of parameters with
 allowMultiple from 1.2 documents

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 91ee30a..e980512 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -129,6 +129,7 @@ def convert_parameter(param, scope, sep):
         if param.is_set('uniqueItems'):
             p_spec['uniqueItems'] = param.uniqueItems
         p_spec['items'] = convert_items(param)
+        convert_min_max(p_spec['items'], param)
         if param.is_set("defaultValue"):
             p_spec['default'] = [param.defaultValue]
         p_spec['items']['enum'] = param.enum
-- 
2.43.0


From 01a0555548b5bdb09dc27ea913e9bc80d53263e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 65/78] fix: take the host of 1.2 documents from complete urls

---
 .../versions/v1_2/scanner/upgrade.py          | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index e980512..b39022c 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -1,7 +1,6 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
-import os
 import six
 from ..... import consts
 from .....errs import SchemaError
@@ -355,21 +354,20 @@ class Upgrade(object):
         if not self.__swagger:
             return None
 
-        common_path = os.path.commonprefix(list(self.__swagger['paths'].keys()))
-        # remove tailing slash,
-        # because all paths in Paths Object would prefixed with slah.
-        common_path = common_path[:-1] if common_path[
-            -1] == '/' else common_path
-
-        if common_path:
-            parsed = six.moves.urllib.parse.urlparse(common_path)
-            self.__swagger['host'] = parsed.netloc
-
-            new_common_path = six.moves.urllib.parse.urlunparse(
+        hosts = {}
+        for k in self.__swagger['paths'].keys():
+            parsed = six.moves.urllib.parse.urlparse(k)
+            prefix = six.moves.urllib.parse.urlunparse(
                 (parsed.scheme, parsed.netloc, '', '', '', ''))
+            hosts.setdefault(parsed.netloc, {})[k] = k[len(prefix):]
+
+        # there is only one host in 2.0
+        if len(hosts) == 1:
+            self.__swagger['host'], paths = hosts.popitem()
             new_path = {}
             for k in self.__swagger['paths'].keys():
-                new_path[k[len(new_common_path):]] = self.__swagger['paths'][k]
+                new_path.setdefault(paths[k],
+                                    {}).update(self.__swagger['paths'][k])
             self.__swagger['paths'] = new_path
 
         return Swagger(self.__swagger, '#')
-- 
2.43.0


From 6cc4cd2b9c4416025f09d47dbe99cd9003362f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:03 +0000
Subject: [PATCH 66/78] fix: name those 1.2 resources without resourcePath
 after the resource listing

---
 .../migration/versions/v1_2/scanner/upgrade.py      | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index b39022c..d6f6401 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -30,6 +30,13 @@ def _compose_ref(scope, name, sep):
         scope_compose(scope, name, sep=sep), base='#/definitions')
 
 
+def _get_scope(api_decl):
+    if api_decl.resourcePath is None:
+        # the name in resource listing
+        return jp_split(api_decl.get_path())[-1]
+    return api_decl.resourcePath[1:]
+
+
 def update_type_and_ref(dst, src, scope, sep):
     ref = getattr(src, '$ref')
     if ref:
@@ -153,7 +160,7 @@ def convert_parameter(param, scope, sep):
 def convert_operation(obj, api, api_decl, swagger, sep):
     op_spec = {}
 
-    scope = api_decl.resourcePath[1:]
+    scope = _get_scope(api_decl)
     if scope:
         op_spec['tags'] = [scope]
     if obj.is_set('nickname'):
@@ -202,7 +209,7 @@ def convert_operation(obj, api, api_decl, swagger, sep):
 
 
 def convert_model(model, api_decl, swagger, sep):
-    scope = api_decl.resourcePath[1:]
+    scope = _get_scope(api_decl)
 
     # Ex. a 'Status' model under 'Pet' resource
     # => new model-id would be 'Pet##Status'
@@ -300,7 +307,7 @@ class Upgrade(object):
 
     @Disp.register([ApiDeclaration])
     def _api_declaration(self, _, obj):
-        name = obj.resource_path[1:]
+        name = _get_scope(obj)
         for tag in self.__swagger['tags']:
             if tag['name'] == name:
                 break
-- 
2.43.0


From 005e3b97f7055cf9b3c4cf6576c715019adb5657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:17 +0000
Subject: [PATCH 67/78] fix: create the attributes declared under __renamed__
 in 2.0 objects

---
 pyopenapi/migration/versions/v2_0/objects.py | 30 ++++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index a27dccf..1ba9e82 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -86,8 +86,8 @@ class Tag(BaseObj_v2_0):
         'externalDocs': dict(child_builder=ExternalDocumentation),
     }
 
-    __renamed__ = {
-        'external_docs': dict(key='externalDocs'),
+    __internal__ = {
+        'external_docs': dict(key='externalDocs', builder=rename),
     }
 
 
@@ -113,17 +113,17 @@ class BaseSchema(BaseObj_v2_0):
         'uniqueItems': dict(),
     }
 
-    __renamed__ = {
-        'type_': dict(key='type'),
-        'format_': dict(key='format'),
-        'exclusive_maximum': dict(key='exclusiveMaximum'),
-        'exclusive_minimum': dict(key='exclusiveMinimim'),
-        'max_length': dict(key='max_length'),
-        'min_length': dict(key='min_length'),
-        'max_items': dict(key='max_items'),
-        'min_items': dict(key='min_items'),
-        'multiple_of': dict(key='multipleOf'),
-        'unique_items': dict(key='uniqueItems'),
+    __internal__ = {
+        'type_': dict(key='type', builder=rename),
+        'format_': dict(key='format', builder=rename),
+        'exclusive_maximum': dict(key='exclusiveMaximum', builder=rename),
+        'exclusive_minimum': dict(key='exclusiveMinimum', builder=rename),
+        'max_length': dict(key='maxLength', builder=rename),
+        'min_length': dict(key='minLength', builder=rename),
+        'max_items': dict(key='maxItems', builder=rename),
+        'min_items': dict(key='minItems', builder=rename),
+        'multiple_of': dict(key='multipleOf', builder=rename),
+        'unique_items': dict(key='uniqueItems', builder=rename),
     }
 
 
@@ -135,8 +135,8 @@ class Items(BaseSchema):
         'collectionFormat': dict(default='csv'),
     }
 
-    __renamed__ = {
-        'collection_format': dict(key='collectionFormat'),
+    __internal__ = {
+        'collection_format': dict(key='collectionFormat', builder=rename),
     }
 
 
-- 
2.43.0


From 4799cfe9472ececf75217d329d878e0e4a99a278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:02 +0000
Subject: [PATCH 68/78] fix: keep what describes a file when converting to 3.0

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py    | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 475bec6..feff1f0 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -124,14 +124,13 @@ def to_schema(obj, path, items_converter=None, absolute_ref=False):
         attrs = obj.get_attrs('migration') if absolute_ref else None
         return {'$ref': attrs.normalized_ref if attrs else ref}
 
-    if getattr(obj, 'type', None) == 'file':
-        return {'type': 'string', 'format': 'binary'}
-
     items_converter = items_converter or functools.partial(
         to_schema, absolute_ref=absolute_ref)
 
     ret = {}
     ret.update(_generate_fields(obj, SCHEMA_FIELDS))
+    if getattr(obj, 'type', None) == 'file':
+        ret.update({'type': 'string', 'format': 'binary'})
 
     required = getattr(obj, 'required', None)
     if isinstance(required, list) and required:
-- 
2.43.0


From 160ade8924811f9ef1ee6474fe212a0be999da01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:03 +0000
Subject: [PATCH 69/78] fix: refuse to build an object from anything but a
 mapping

---
 pyopenapi/migration/versions/base.py           | 17 +++++++++++++++++
 pyopenapi/migration/versions/v1_2/objects.py   |  5 +++--
 pyopenapi/migration/versions/v2_0/objects.py   |  5 +++--
 pyopenapi/migration/versions/v3_0_0/objects.py |  5 +++--
 4 files changed, 26 insertions(+), 6 deletions(-)
 create mode 100644 pyopenapi/migration/versions/base.py

diff --git a/pyopenapi/migration/versions/base.py b/pyopenapi/migration/versions/base.py
new file mode 100644
index 0000000..d2c6612
--- /dev/null
+++ b/pyopenapi/migration/versions/base.py
@@ -0,0 +1,17 @@
+# -*- coding: utf-8 -*-
+
+from __future__ import absolute_import
+
+from ..spec import Base2
+
+
+class SpecObj(Base2):
+    """ base of the objects of all versions, can only be built from a mapping
+    """
+
+    def __init__(self, spec, path=None, override=None):
+        if not isinstance(spec, dict):
+            raise Exception(
+                'should be an instance of dict when constructing {}, not {}, {}'
+                .format(self.__class__.__name__, str(type(spec)), path))
+        super(SpecObj, self).__init__(spec, path, override)
diff --git a/pyopenapi/migration/versions/v1_2/objects.py b/pyopenapi/migration/versions/v1_2/objects.py
index 68fb345..f216e4a 100644
--- a/pyopenapi/migration/versions/v1_2/objects.py
+++ b/pyopenapi/migration/versions/v1_2/objects.py
@@ -1,11 +1,12 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
-from ...spec import Base2, rename, list_, map_
+from ...spec import rename, list_, map_
+from ..base import SpecObj
 
 
 # pylint: disable=invalid-name
-class BaseObj_v1_2(Base2):
+class BaseObj_v1_2(SpecObj):
     __swagger_version__ = '1.2'
 
 
diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index 1ba9e82..6fb0679 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -3,7 +3,8 @@
 from __future__ import absolute_import
 import six
 
-from ...spec import Base2, rename, child, list_, map_
+from ...spec import rename, child, list_, map_
+from ..base import SpecObj
 
 
 def is_str(spec, path, override):
@@ -36,7 +37,7 @@ def if_not_bool_else(class_builder):
 
 
 # pylint: disable=invalid-name
-class BaseObj_v2_0(Base2):
+class BaseObj_v2_0(SpecObj):
     __swagger_version__ = '2.0'
 
 
diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index a8cd069..2427af8 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -3,11 +3,12 @@
 from __future__ import absolute_import
 import six
 
-from ...spec import Base2, rename, child, list_, map_
+from ...spec import rename, child, list_, map_
+from ..base import SpecObj
 
 
 # pylint: disable=invalid-name
-class Base2_v3_0_0(Base2):
+class Base2_v3_0_0(SpecObj):
     __swagger_version__ = '3.0.0'
 
 
-- 
2.43.0


From f5b34ce651866b50c9a9ca26ba806d102e1b5d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:31 +0000
Subject: [PATCH 70/78] fix: report the version of a document that was migrated
 before

---
 pyopenapi/migration/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 5428ff2..28e573f 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -245,6 +245,8 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                     url, relocated_jp, obj.__swagger_version__, spec_version),
                 spec_version)
             if migrated is not None:
+                if isinstance(obj, (OpenApi, Swagger, ResourceListing)):
+                    self.__current_spec_version = spec_version
                 return migrated
 
         from_spec_version = obj.__swagger_version__
-- 
2.43.0


From d708b9bb6aa3e360a010a0347d22cd0f04b56347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 71/78] fix: resolve references to references in a document
 that is not migrated yet

---
 .../migration/versions/v3_0_0/scanner/resolve.py    | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index c907759..2694d87 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -3,7 +3,7 @@
 from __future__ import absolute_import
 import six
 
-from .....utils import jp_compose, jr_split
+from .....utils import jp_compose, jr_split, normalize_jr
 from .....errs import JsonReferenceError
 from ....scan import Dispatcher
 from ..objects import (
@@ -74,9 +74,14 @@ def _resolve(obj, expected, app, path):
 
     # when a fragment loaded from other document is a reference, there is no
     # enclosing object to resolve it.
-    if isinstance(resolved, Reference) and not resolved.get_attrs(
-            'migration', ReferenceAttributeGroup).ref_obj:
-        _resolve(resolved, expected, app, path)
+    if isinstance(resolved, Reference):
+        attrs = resolved.get_attrs('migration', ReferenceAttributeGroup)
+        if not attrs.ref_obj:
+            if not attrs.normalized_ref:
+                # its document is loaded, but not migrated yet
+                attrs.normalized_ref = normalize_jr(resolved.ref,
+                                                    jr_split(new_ref)[0])
+            _resolve(resolved, expected, app, path)
 
 
 class Resolve(object):
-- 
2.43.0


From 443ad4815852ce0c51e77d27b532c58ee11aa4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:34 +0000
Subject: [PATCH 72/78] fix: count numeric status codes as strings in documents
 given as mappings

---
 pyopenapi/migration/getter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index ca1f2c2..f52afe9 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import copy
 import io
 import json
 import os
@@ -61,7 +62,8 @@ class Getter(six.Iterator):
 
         # make sure data is string type
         if isinstance(obj, dict):
-            pass
+            # it might be loaded by pyaml, and what's provided is left untouched
+            obj = _stringify_keys(copy.deepcopy(obj))
         elif isinstance(obj, six.binary_type):
             obj = obj.decode('utf-8')
         elif not isinstance(obj, six.string_types):
-- 
2.43.0


From 5d8ee9c2f8dac674f3f17cb97a4d928a0e7daba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:54 +0000
Subject: [PATCH 73/78] fix: parse documents in JSON whose root is a list as
 JSON

---
 pyopenapi/migration/getter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index f52afe9..9ebc3a9 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -73,11 +73,11 @@ class Getter(six.Iterator):
         if isinstance(obj, six.string_types):
             obj = obj.lstrip(u'\ufeff')
             try:
-                if obj.lstrip().startswith('{'):
+                if obj.lstrip().startswith(('{', '[')):
                     try:
                         obj = json.loads(obj)
                     except ValueError:
-                        # it might be a flow mapping in yaml
+                        # it might be a flow collection in yaml
                         obj = _stringify_keys(yaml.load(obj))
                 else:
                     obj = _stringify_keys(yaml.load(obj))
-- 
2.43.0


From e5d5900c596d5d9bcaef74837e72daa55415211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:18 +0000
Subject: [PATCH 74/78] fix: don't give an operation servers without a host

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index feff1f0..1cb4e85 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -523,10 +523,12 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
                                                    'externalDocs', base=path))
 
     # schemes
-    if obj.schemes:
+    parts = six.moves.urllib.parse.urlsplit(root_url)
+    # without a host, it's relative to the location where the document is
+    # being served, and the scheme is that one.
+    if obj.schemes and parts.netloc:
         servers = ret.setdefault('servers', [])
         for scheme in obj.schemes:
-            parts = six.moves.urllib.parse.urlsplit(root_url)
             servers.append({
                 'url':
                 six.moves.urllib.parse.urlunsplit((scheme, ) + parts[1:])
-- 
2.43.0


From fe4e796ec847bcec15793115c3f252b2325bc3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:23 +0000
Subject: [PATCH 75/78] fix: a relative reference has its own query, not the
 one of the document

---
 pyopenapi/utils.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index b0a9620..a0603a6 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -260,21 +260,24 @@ def normalize_jr(json_ref, url=None):
                     json_ref[idx + 1:]) if idx != -1 else (json_ref, None)
 
     if url_part:
-        parsed = six.moves.urllib.parse.urlparse(url_part)
+        parsed = six.moves.urllib.parse.urlsplit(url_part)
         if parsed.scheme == '' and url:
-            url_parsed = six.moves.urllib.parse.urlparse(url)
+            url_parsed = six.moves.urllib.parse.urlsplit(url)
             if parsed.netloc:
                 # only the scheme is omitted
                 url_part = url_parsed.scheme + ':' + url_part
             else:
                 # it's the path of relative file, or an absolute path
                 # on the same host.
-                if not url_part.startswith('/'):
-                    url_part = '/'.join([
-                        os.path.dirname(url_parsed.path).rstrip('/'), url_part
-                    ])
-                url_part = six.moves.urllib.parse.urlunparse(
-                    url_parsed[:2] + (url_part, ) + url_parsed[3:])
+                path = parsed.path
+                if not path:
+                    # only the query is different
+                    path = url_parsed.path
+                elif not path.startswith('/'):
+                    path = '/'.join(
+                        [os.path.dirname(url_parsed.path).rstrip('/'), path])
+                url_part = six.moves.urllib.parse.urlunsplit(
+                    url_parsed[:2] + (path, parsed.query, ''))
             url_part = derelativise_url(url_part)
     else:
         url_part = url
-- 
2.43.0


From 59e517955ae92587b78980a2603ec24344ae56ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:33 +0000
Subject: [PATCH 76/78] fix: pointers to parameters of operations and to
 schemas of bodies and responses follow what they point to

---
 .../v2_0/scanner/upgrade/converters.py        | 93 ++++++++++++++++---
 pyopenapi/migration/versions/v3_0_0/main.py   | 42 ++++-----
 2 files changed, 99 insertions(+), 36 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 1cb4e85..1d11fbc 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -11,6 +11,17 @@ from .constants import BASE_SCHEMA_FIELDS, SCHEMA_FIELDS, OAUTH2_FLOWS
 from .parameter_context import ParameterContext
 
 
+METHODS = (
+    'get',
+    'put',
+    'post',
+    'delete',
+    'options',
+    'head',
+    'patch',
+)
+
+
 def _generate_fields(obj, names):
     ret = {}
     for name in names:
@@ -537,6 +548,61 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
     return ret
 
 
+def _get_schema_reloc(obj, migrated, src, dst):
+    """ 'schema' of a body parameter or a response belongs to each media
+    type in 3.0, and those pointing to it are moved to the first one.
+    """
+    if not getattr(obj, '$ref', None) and getattr(obj, 'schema', None):
+        for type_ in migrated.get('content', {}):
+            return {
+                jp_compose(src + ['schema']):
+                jp_compose(dst + ['content', type_, 'schema'])
+            }
+    return {}
+
+
+def get_parameter_reloc(obj, migrated):
+    return _get_schema_reloc(obj, migrated, [], [])
+
+
+def get_response_reloc(obj, migrated):
+    return _get_schema_reloc(obj, migrated, [], [])
+
+
+def get_operations_reloc(obj, migrated):
+    """ object relocation for those under operations of Path Item Object """
+    reloc = {}
+    for method in METHODS:
+        operation = getattr(obj, method, None)
+        if not operation:
+            continue
+
+        count = 0
+        for index, param in enumerate(operation.parameters or []):
+            jp = [method, 'parameters', str(index)]
+            resolved_obj = deref(param)
+            if getattr(resolved_obj, 'type', None) == 'file' or getattr(
+                    resolved_obj, 'in', None) in ('body', 'formData'):
+                body = [method, 'requestBody']
+                reloc[jp_compose(jp)] = jp_compose(body)
+                reloc.update(
+                    _get_schema_reloc(param, migrated[method]['requestBody'],
+                                      jp, body))
+            else:
+                if count != index:
+                    reloc[jp_compose(jp)] = jp_compose(
+                        [method, 'parameters', str(count)])
+                count += 1
+
+        for k, resp in six.iteritems(operation.responses or {}):
+            jp = [method, 'responses', k]
+            reloc.update(
+                _get_schema_reloc(resp, migrated[method]['responses'][k], jp,
+                                  jp))
+
+    return reloc
+
+
 def to_contact(obj, _):
     ret = _generate_fields(obj, ('name', 'url', 'email'))
 
@@ -614,6 +680,10 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
                 body_params.append((index, param))
                 reloc['parameters/{}'.format(
                     index)] = 'x-pyopenapi_internal_request_body'
+                reloc.update(
+                    _get_schema_reloc(param, new_p, ['parameters',
+                                                     str(index)],
+                                      ['x-pyopenapi_internal_request_body']))
             else:
                 if not parameters:
                     parameters = ret.setdefault('parameters', [])
@@ -623,15 +693,7 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
                 parameters.append(new_p)
 
     # operations
-    for method in (
-            'get',
-            'put',
-            'post',
-            'delete',
-            'options',
-            'head',
-            'patch',
-    ):
+    for method in METHODS:
         operation = getattr(obj, method, None)
         if operation:
             ret[method] = to_operation(
@@ -696,6 +758,7 @@ def to_openapi(obj, path):
                 jp_compose(k, base=path),
                 consumes=obj.consumes,
                 produces=obj.produces)
+            tmp_reloc.update(get_operations_reloc(path_, paths[k]))
             if tmp_reloc:
                 reloc.setdefault('paths', {})[k.replace('~', '~0').replace(
                     '/', '~1')] = tmp_reloc
@@ -736,9 +799,8 @@ def to_openapi(obj, path):
             request_bodies = None
             param_reloc = {}
             for k, param in six.iteritems(obj.parameters):
-                param, pctx = from_parameter(param, None, None,
-                                             jp_compose(
-                                                 ['parameters', k], base=path))
+                old, (param, pctx) = param, from_parameter(
+                    param, None, None, jp_compose(['parameters', k], base=path))
                 if pctx.is_body:
                     if request_bodies is None:
                         request_bodies = components.setdefault(
@@ -747,6 +809,10 @@ def to_openapi(obj, path):
                     encoded = jp_compose(k)
                     param_reloc[encoded] = jp_compose(
                         k, base='#/components/requestBodies')
+                    for from_, to_ in six.iteritems(
+                            get_parameter_reloc(old, param)):
+                        param_reloc[encoded + '/' + from_] = '/'.join(
+                            [param_reloc[encoded], to_])
                 else:
                     if parameters is None:
                         parameters = components.setdefault('parameters', {})
@@ -762,6 +828,9 @@ def to_openapi(obj, path):
                 responses[k] = to_response(resp, obj.produces,
                                            jp_compose(
                                                ['responses', k], base=path))
+                reloc.update(
+                    _get_schema_reloc(resp, responses[k], ['responses', k],
+                                      ['components', 'responses', k]))
 
             reloc['responses'] = 'components/responses'
 
diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index 659d83c..e2d2798 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -26,15 +26,13 @@ def _get_override(app, url, jp, reloc):
     found = app.spec_obj_store.get_under(url, jp, '3.0.0', remove=False)
 
     ret = {}
+    app.spec_obj_store.update_routes(url, '3.0.0', {jp: reloc})
     for path, val in six.iteritems(found or {}):
         if not path or not isinstance(
                 val, (objects.License, objects.Info, objects.Schema)):
             continue
-        for from_, to_ in six.iteritems(reloc):
-            if path.startswith(from_ + '/'):
-                path = to_ + path[len(from_):]
-                break
-        ret[path] = val
+        path = app.spec_obj_store.relocate(url, jp + '/' + path, '2.0', '3.0.0')
+        ret[path[len(jp) + 1:]] = val
     return ret
 
 
@@ -43,41 +41,37 @@ def upgrade(obj, app, jref):
     reloc = {}
     url, jp = jr_split(jref)
     if ret.__swagger_version__ == '2.0':
-        override = None
-        if isinstance(ret, (Swagger, License, Info, Schema)):
-            override = _get_override(
-                app, url, jp, {'definitions': 'components/schemas'}
-                if isinstance(ret, Swagger) else {})
-
         if isinstance(ret, Swagger):
             migrated, reloc = converters.to_openapi(ret, jp)
-            ret = objects.OpenApi(migrated, path=jp, override=override)
+            parser = objects.OpenApi
         elif isinstance(ret, License):
-            ret = objects.License(
-                converters.to_license(ret, jp), path=jp, override=override)
+            migrated, parser = converters.to_license(ret, jp), objects.License
         elif isinstance(ret, Info):
-            ret = objects.Info(
-                converters.to_info(ret, jp), path=jp, override=override)
+            migrated, parser = converters.to_info(ret, jp), objects.Info
         elif isinstance(ret, (Schema, Reference)) and ret.ref:
-            ret = objects.Reference({'$ref': ret.ref}, path=jp)
+            migrated, parser = {'$ref': ret.ref}, objects.Reference
         elif isinstance(ret, Schema):
-            ret = objects.Schema(
-                converters.to_schema(ret, jp), path=jp, override=override)
+            migrated, parser = converters.to_schema(ret, jp), objects.Schema
         elif isinstance(ret, PathItem):
             migrated, reloc = converters.to_path_item(ret, url, jp)
-            ret = objects.PathItem(migrated, path=jp)
+            reloc.update(converters.get_operations_reloc(ret, migrated))
+            parser = objects.PathItem
         elif isinstance(ret, Parameter):
             migrated, ctx = converters.from_parameter(ret, None, None, jp)
-            ret = (objects.RequestBody if ctx.is_body else objects.Parameter)(
-                migrated, path=jp)
+            reloc = converters.get_parameter_reloc(ret, migrated)
+            parser = objects.RequestBody if ctx.is_body else objects.Parameter
         elif isinstance(ret, Response):
-            ret = objects.Response(
-                converters.to_response(ret, None, jp), path=jp)
+            migrated = converters.to_response(ret, None, jp)
+            reloc = converters.get_response_reloc(ret, migrated)
+            parser = objects.Response
         else:
             raise Exception(
                 'unable to upgrade from 2.0: {} for type: {}'.format(
                     jref, str(type(ret))))
 
+        ret = parser(
+            migrated, path=jp, override=_get_override(app, url, jp, reloc))
+
     if ret.__swagger_version__ == '3.0.0':
         # phase 1: normalized $ref
         scan(root=ret, route=[NormalizeRef(url)])
-- 
2.43.0


From a31d236c767ca077f70cd12a859c48b62bb8d1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:09 +0000
Subject: [PATCH 77/78] fix: parts migrated before what encloses them are found
 where it has them

---
 pyopenapi/migration/store.py                | 50 ++++++++++++++++-----
 pyopenapi/migration/versions/v3_0_0/main.py | 18 ++++----
 2 files changed, 48 insertions(+), 20 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 79f321f..9f14fa0 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -29,6 +29,10 @@ class SpecObjStore(object):
     def __init__(self, migratable_spec_versions=None):
         self.__spec_objs = {}
         self.__routes = {}
+        # where those in cache were before moved
+        self.__moved = {}
+        # those not in cache anymore
+        self.__replaced = []
         self.__migratable_spec_versions = False \
             or migratable_spec_versions \
             or utils.get_supported_versions(os.path.join('migration', 'versions'), is_pkg=True)
@@ -58,16 +62,20 @@ class SpecObjStore(object):
             return None
 
         # try to find the closest object enclosing 'jp' under 'url'
-        found = None
-        for path, cache in six.iteritems(url_cache):
-            if _is_under(jp, path) and spec_version in cache:
-                if found is None or len(path) > len(found):
-                    found = path
-
-        if found is None:
-            return None
-        return url_cache[found][spec_version].resolve(
-            utils.jp_split(jp[len(found):])[1:])
+        found = sorted((path for path, cache in six.iteritems(url_cache)
+                        if _is_under(jp, path) and spec_version in cache),
+                       key=len)
+        while found:
+            path = found.pop()
+            try:
+                return url_cache[path][spec_version].resolve(
+                    utils.jp_split(jp[len(path):])[1:])
+            except (KeyError, IndexError):
+                # it might be migrated without what encloses it, and is
+                # shaped in other way than the one there.
+                if not found:
+                    raise
+        return None
 
     def get_under(self, url, jp, spec_version, remove=True):
         """ get all children under 'jp', and remove them
@@ -95,6 +103,26 @@ class SpecObjStore(object):
 
         return ret
 
+    def relocate_under(self, url, jp, from_spec, to_spec):
+        """ move those migrated before what encloses them (located at 'jp')
+        to where they should be found after that is migrated, too.
+        """
+        url_cache = self.__spec_objs.get(url, {})
+        moved = [(path, cache.pop(to_spec))
+                 for path, cache in six.iteritems(url_cache)
+                 if path != jp and _is_under(path, jp) and to_spec in cache]
+        moved = [(self.__moved.pop((url, path, to_spec), path), obj)
+                 for path, obj in moved]
+
+        for origin, obj in moved:
+            path = self.relocate(url, origin, from_spec, to_spec)
+            cache = url_cache.setdefault(path, {})
+            if cache.setdefault(to_spec, obj) is obj:
+                self.__moved[(url, path, to_spec)] = origin
+            else:
+                # there might be someone using it
+                self.__replaced.append(obj)
+
     def get_until(self, url, jp, spec_version, until=None):
         """ get migrated version of one object until 'some' version
         """
@@ -134,10 +162,12 @@ class SpecObjStore(object):
                              for version, route in six.iteritems(versions))
             for url, versions in six.iteritems(self.__routes)
         }
+        moved = dict(self.__moved)
         try:
             yield
         except BaseException:
             self.__spec_objs, self.__routes = objs, routes
+            self.__moved = moved
             raise
 
     #
diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index e2d2798..a4a3690 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -23,17 +23,15 @@ def _get_override(app, url, jp, reloc):
     """ those migrated earlier under 'jp' and could be part of the one
     being migrated: what they are is independent to what encloses them.
     """
-    found = app.spec_obj_store.get_under(url, jp, '3.0.0', remove=False)
-
-    ret = {}
     app.spec_obj_store.update_routes(url, '3.0.0', {jp: reloc})
-    for path, val in six.iteritems(found or {}):
-        if not path or not isinstance(
-                val, (objects.License, objects.Info, objects.Schema)):
-            continue
-        path = app.spec_obj_store.relocate(url, jp + '/' + path, '2.0', '3.0.0')
-        ret[path[len(jp) + 1:]] = val
-    return ret
+    app.spec_obj_store.relocate_under(url, jp, '2.0', '3.0.0')
+    found = app.spec_obj_store.get_under(url, jp, '3.0.0', remove=False)
+    return {
+        path: val
+        for path, val in six.iteritems(found or {})
+        if path and isinstance(val, (objects.License, objects.Info,
+                                     objects.Schema, objects.Parameter))
+    }
 
 
 def upgrade(obj, app, jref):
-- 
2.43.0


From 2ea91e99ec0bf0309eba7259d5d3fc712971595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:10 +0000
Subject: [PATCH 78/78] fix: resolve references again by what they were before
 relocation

---
 pyopenapi/migration/versions/v3_0_0/attrs.py            | 2 ++
 pyopenapi/migration/versions/v3_0_0/scanner/norm_ref.py | 5 ++++-
 pyopenapi/migration/versions/v3_0_0/scanner/resolve.py  | 2 ++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/attrs.py b/pyopenapi/migration/versions/v3_0_0/attrs.py
index 16340cd..036da0b 100644
--- a/pyopenapi/migration/versions/v3_0_0/attrs.py
+++ b/pyopenapi/migration/versions/v3_0_0/attrs.py
@@ -8,6 +8,8 @@ class ReferenceAttributeGroup(AttributeGroup):
     __attributes__ = {
         'ref_obj': dict(),
         'normalized_ref': dict(),
+        # what 'normalized_ref' is before relocation
+        'original_ref': dict(),
     }
 
 
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/norm_ref.py b/pyopenapi/migration/versions/v3_0_0/scanner/norm_ref.py
index 2681d7f..f98cab7 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/norm_ref.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/norm_ref.py
@@ -13,7 +13,10 @@ from ..attrs import (
 def _normalize(obj, base_url, attr_group_cls):
     if obj.ref:
         attrs = obj.get_attrs('migration', attr_group_cls)
-        attrs.normalized_ref = normalize_jr(obj.ref, base_url)
+        # those resolved already are relocated, too. However, where they point
+        # to might be changed by the migration of what enclosing them.
+        attrs.normalized_ref = getattr(attrs, 'original_ref',
+                                       None) or normalize_jr(obj.ref, base_url)
 
 
 class NormalizeRef(object):
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index 2694d87..1956b6a 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -69,6 +69,8 @@ def _resolve(obj, expected, app, path):
     else:
         obj.ref = new_ref
 
+    if isinstance(obj, Reference):
+        attrs.original_ref = attrs.normalized_ref
     attrs.normalized_ref = new_ref
     attrs.ref_obj = resolved
 
-- 
2.43.0

