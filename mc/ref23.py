"""Reference conversion of Swagger 2.0 to OpenAPI 3.0 on plain mappings, written from the two specifications
(never from the code under test), and the effective form in which the two results are compared."""
import copy
from docs import esc, unesc

BASE = ('type format default maximum exclusiveMaximum minimum exclusiveMinimum maxLength minLength pattern maxItems minItems uniqueItems '
        'enum multipleOf').split()
SCHEMA = BASE + 'title maxProperties minProperties description readOnly example'.split()
METHODS = 'get put post delete options head patch'.split()
FORM = ['application/x-www-form-urlencoded', 'multipart/form-data']


def pick(d, names):
    return dict((k, copy.deepcopy(d[k])) for k in names if k in d)


def ref(r, doc, kind=None):
    """local references move with the component they name"""
    if not r.startswith('#/'):
        return r
    t = r.split('/')
    if t[1] == 'definitions':
        return '/'.join(['#', 'components', 'schemas'] + t[2:])
    if t[1] == 'responses':
        return '/'.join(['#', 'components', 'responses'] + t[2:])
    if t[1] == 'parameters':
        p = doc['parameters'][unesc(t[2])]
        return '/'.join(['#', 'components', 'requestBodies' if p['in'] in ('body', 'formData') else 'parameters'] + t[2:])
    return r


def target(doc, r):
    cur = doc
    for t in r.split('/')[1:]:
        cur = cur[unesc(t)]
    return cur


def schema(s, doc):
    if '$ref' in s:
        return {'$ref': ref(s['$ref'], doc)}
    out = pick(s, SCHEMA)
    if s.get('type') == 'file':
        out.update(type='string', format='binary')
    if s.get('required'):
        out['required'] = list(s['required'])
    if s.get('allOf'):
        out['allOf'] = [schema(x, doc) for x in s['allOf']]
    if 'items' in s:
        out['items'] = schema(s['items'], doc)
    if s.get('properties'):
        out['properties'] = dict((k, schema(x, doc)) for k, x in s['properties'].items())
    ap = s.get('additionalProperties')
    if ap is False:
        out['additionalProperties'] = False
    elif isinstance(ap, dict):
        out['additionalProperties'] = schema(ap, doc)
    if 'discriminator' in s:
        out['discriminator'] = {'propertyName': s['discriminator']}
    if 'xml' in s:
        out['xml'] = pick(s['xml'], 'name namespace prefix attribute wrapped'.split())
    if 'externalDocs' in s:
        out['externalDocs'] = external(s['externalDocs'])
    return out


def external(e):
    return pick(e, ['url', 'description'])


def items(s):
    out = pick(s, BASE)
    if 'items' in s:
        out['items'] = items(s['items'])
    return out


def plain(s):
    """schema of a non-body parameter, form field or header"""
    if s.get('type') == 'file':
        return dict(items(s), type='string', format='binary')
    return items(s)


def style(s, in_):
    """(style, explode) that means the same as the collectionFormat of an array; None for everything else"""
    if s.get('type') != 'array':
        return None
    cf = s.get('collectionFormat', 'csv')
    if cf == 'csv':
        return ('form', False) if in_ in ('query', 'formData') else ('simple', False)
    return {'multi': ('form', True), 'ssv': ('spaceDelimited', False), 'pipes': ('pipeDelimited', False)}[cf]


def parameter(p, doc):
    if '$ref' in p:
        return {'$ref': ref(p['$ref'], doc)}
    out = pick(p, ['name', 'in', 'description'])
    out['required'] = bool(p.get('required'))
    out['allowEmptyValue'] = bool(p.get('allowEmptyValue'))
    out['schema'] = plain(p)
    out['~style'] = style(p, p['in'])
    return out


def field(p):
    s = plain(p)
    s.update(pick(p, ['description']))
    if p.get('allowEmptyValue') is True:
        s['nullable'] = True
    return s


def encoding(p):
    t = p
    while t.get('type') == 'array':
        t = t['items']
    ct = {'file': 'application/octet-stream', 'object': 'application/json'}.get(t.get('type'), 'text/plain')
    return {'contentType': ct, '~style': style(p, 'formData')}


def media_types(p, consumes):
    consumes = consumes or []
    if p['in'] == 'body':
        return list(consumes) or ['application/json']
    is_file = p.get('type') == 'file'
    ok = [c for c in consumes if c in FORM]
    return ok or (['multipart/form-data'] if is_file else ['application/x-www-form-urlencoded'])


def bodies(params, doc):
    """(index, parameter, resolved) of the parameters that make up the request body"""
    for i, p in enumerate(params or []):
        r = target(doc, p['$ref']) if '$ref' in p else p
        if r['in'] in ('body', 'formData'):
            yield i, p, r


def request_body(params, consumes, doc):
    """params: list of (parameter, resolved parameter)"""
    if not params:
        return None
    out = {'required': any(r.get('required') for _, r in params), 'content': {}}
    for p, r in params:
        for ct in media_types(r, consumes):
            m = out['content'].setdefault(ct, {})
            if r['in'] == 'body':
                m['schema'] = schema(r['schema'], doc)
                m.update(eff_body({'content': {ct: m}})['content'][ct])
                if 'description' in r:
                    out['description'] = r['description']
            else:
                s = m.setdefault('schema', {})
                s.setdefault('properties', {})[r['name']] = field(r)
                if r.get('required'):
                    s.setdefault('required', []).append(r['name'])
                m.setdefault('encoding', {})[r['name']] = encoding(r)
                if '$ref' in p:
                    out.setdefault('~refs', {})[(ct, r['name'])] = ref(p['$ref'], doc)
    return out


def header(h):
    out = pick(h, ['description'])
    out['schema'] = items(h)
    out['~style'] = style(h, 'header')
    return out


def response(r, produces, doc):
    res = target(doc, r['$ref']) if '$ref' in r else r
    if '$ref' in r and 'schema' not in res:
        return {'$ref': ref(r['$ref'], doc)}
    out = pick(res, ['description'])
    if 'schema' in res:
        sch = schema(res['schema'], doc)
        types = list(produces or [])
        if not types:
            types = ['application/octet-stream'] if res['schema'].get('type') == 'file' else ['*']       # '*': any single media type
        for ct in types:
            out.setdefault('content', {})[ct] = {'schema': sch}
    for ct, ex in (res.get('examples') or {}).items():
        out.setdefault('content', {}).setdefault(ct, {})['example'] = copy.deepcopy(ex)
    for k, h in (res.get('headers') or {}).items():
        out.setdefault('headers', {})[k] = header(h)
    return out


def operation(op, item, doc):
    out = pick(op, ['summary', 'description', 'operationId'])
    out['deprecated'] = bool(op.get('deprecated'))
    if op.get('tags'):
        out['tags'] = list(op['tags'])
    if 'security' in op:
        out['security'] = copy.deepcopy(op['security'])
    if 'externalDocs' in op:
        out['externalDocs'] = external(op['externalDocs'])
    consumes = op['consumes'] if 'consumes' in op else doc.get('consumes')
    produces = op['produces'] if 'produces' in op else doc.get('produces')
    own = [(p, r) for _, p, r in bodies(op.get('parameters'), doc)]
    mine = [target(doc, p['$ref']) if '$ref' in p else p for p in op.get('parameters') or []]

    def same(a, b):
        return a['in'] == b['in'] == 'body' or (a['in'], a['name']) == (b['in'], b['name'])
    inherited = [(p, r) for _, p, r in bodies(item.get('parameters'), doc) if not any(same(r, m) for m in mine)]
    body = request_body(inherited + own, consumes, doc)
    if body:
        out['requestBody'] = body
    rest = parameters(op.get('parameters'), doc)
    if rest:
        out['parameters'] = rest
    if op.get('responses'):
        out['responses'] = dict((k, response(r, produces, doc)) for k, r in op['responses'].items())
    if op.get('schemes') and doc.get('host'):
        out['servers'] = ['%s://%s%s' % (s, doc['host'], doc.get('basePath', '')) for s in op['schemes']]
    return out


def parameters(params, doc):
    bod = set(i for i, _, _ in bodies(params, doc))
    return [parameter(p, doc) for i, p in enumerate(params or []) if i not in bod]


def path_item(item, doc):
    out = dict((m, operation(item[m], item, doc)) for m in METHODS if m in item)
    rest = parameters(item.get('parameters'), doc)
    if rest:
        out['parameters'] = rest
    return out


# ------------------------------------------------------------------ effective form of a converted document (3.0)

def eff_style(p, in_, sch):
    if not isinstance(sch, dict) or sch.get('type') != 'array':
        return None
    st = p.get('style') or ('form' if in_ in ('query', 'cookie', 'formData') else 'simple')
    return (st, p['explode'] if 'explode' in p else st == 'form')


def eff_parameter(p):
    if '$ref' in p:
        return p
    out = dict((k, v) for k, v in p.items() if k not in ('style', 'explode'))
    out['required'] = bool(p.get('required'))
    out['allowEmptyValue'] = bool(p.get('allowEmptyValue'))
    out['~style'] = eff_style(p, p['in'], p.get('schema'))
    out.setdefault('schema', {})
    return out


def eff_header(h):
    out = dict((k, v) for k, v in h.items() if k not in ('style', 'explode'))
    out['~style'] = eff_style(h, 'header', h.get('schema'))
    out.setdefault('schema', {})
    return out


def eff_body(b):
    out = dict(b)
    out['required'] = bool(b.get('required'))
    out['content'] = {}
    for ct, m in (b.get('content') or {}).items():
        m = copy.deepcopy(m)
        if ct in FORM:
            for n, s in (m.get('schema') or {}).get('properties', {}).items():
                e = m.setdefault('encoding', {}).setdefault(n, {})
                t = s
                while t.get('type') == 'array':
                    t = t.get('items', {})
                e.setdefault('contentType', 'application/octet-stream' if t.get('format') == 'binary' else
                             'application/json' if t.get('type') == 'object' else 'text/plain')
                e['~style'] = eff_style(e, 'formData', s)
                e.pop('style', None), e.pop('explode', None)
        out['content'][ct] = m
    return out


def eff_response(r):
    if '$ref' in r:
        return r
    out = dict(r)
    if r.get('headers'):
        out['headers'] = dict((k, eff_header(h)) for k, h in r['headers'].items())
    return out


def eff_operation(op):
    out = dict(op)
    out['deprecated'] = bool(op.get('deprecated'))
    if 'parameters' in op:
        out['parameters'] = [eff_parameter(p) for p in op['parameters']]
    if 'requestBody' in op:
        out['requestBody'] = eff_body(op['requestBody'])
    if 'responses' in op:
        out['responses'] = dict((k, eff_response(r)) for k, r in op['responses'].items())
    if 'servers' in op:
        out['servers'] = [s.get('url') for s in op['servers']]
    return out


def eff_path_item(item):
    out = dict((m, eff_operation(item[m])) for m in METHODS if m in item)
    if item.get('parameters'):
        out['parameters'] = [eff_parameter(p) for p in item['parameters']]
    for k in item:
        if k not in out and k != 'x-pyopenapi_internal_request_body' and item[k]:
            out[k] = item[k]
    return out


# ------------------------------------------------------------------ whole documents

FLOWS = {'implicit': 'implicit', 'password': 'password', 'application': 'clientCredentials', 'accessCode': 'authorizationCode', 'access_code': 'authorizationCode'}


def security_scheme(s):
    out = pick(s, ['description'])
    if s['type'] == 'basic':
        out.update(type='http', scheme='basic')
    elif s['type'] == 'apiKey':
        out.update(pick(s, ['type', 'name', 'in']))
    else:
        flow = pick(s, ['authorizationUrl', 'tokenUrl'])
        flow['scopes'] = copy.deepcopy(s.get('scopes') or {})
        out.update(type='oauth2', flows={FLOWS[s['flow']]: flow})
    return out


def info(i):
    out = pick(i, 'title version description termsOfService'.split())
    if 'contact' in i:
        out['contact'] = pick(i['contact'], ['name', 'url', 'email'])
    if 'license' in i:
        out['license'] = pick(i['license'], ['name', 'url'])
    return out


def servers(d, doc_url):
    """list of sets of acceptable base URLs"""
    base = d.get('basePath') or ''
    scheme, host = doc_url.split('://')[0], doc_url.split('://')[1].split('/')[0]
    urls = []
    if 'host' not in d:
        # relative to where the document is served
        return [set([base or '/']) | set('%s://%s%s' % (s, host, base) for s in d.get('schemes') or [scheme])]
    for s in d.get('schemes') or [None]:
        ok = set()
        for x in [s] if s else ['https', 'http', scheme]:
            ok.add('%s://%s%s' % (x, d['host'], base))
        if not s:
            ok.add('//%s%s' % (d['host'], base))
        urls.append(ok)
    if base in ('', '/'):
        urls = [set(u.rstrip('/') for u in ok) | set(u.rstrip('/') + '/' for u in ok) for ok in urls]
    return urls


def document(d):
    """everything but the servers"""
    out = {'openapi': '3.0.0'}
    if 'info' in d:
        out['info'] = info(d['info'])
    if d.get('paths'):
        out['paths'] = dict((k, path_item(v, d)) for k, v in d['paths'].items())
    if d.get('security'):
        out['security'] = copy.deepcopy(d['security'])
    if d.get('tags'):
        out['tags'] = []
        for t in d['tags']:
            t3 = pick(t, ['name', 'description'])
            if 'externalDocs' in t:
                t3['externalDocs'] = external(t['externalDocs'])
            out['tags'].append(t3)
    if 'externalDocs' in d:
        out['externalDocs'] = external(d['externalDocs'])
    comp = {}
    for k, s in (d.get('definitions') or {}).items():
        comp.setdefault('schemas', {})[k] = schema(s, d)
    for k, p in (d.get('parameters') or {}).items():
        if p['in'] in ('body', 'formData'):
            comp.setdefault('requestBodies', {})[k] = request_body([(p, p)], None, d)
        else:
            comp.setdefault('parameters', {})[k] = parameter(p, d)
    for k, r in (d.get('responses') or {}).items():
        comp.setdefault('responses', {})[k] = response(r, d.get('produces'), d)
    for k, s in (d.get('securityDefinitions') or {}).items():
        comp.setdefault('securitySchemes', {})[k] = security_scheme(s)
    if comp:
        out['components'] = comp
    return out


def eff_document(o):
    out = dict(o)
    if not out.get('security'):
        out.pop('security', None)
    if 'paths' in o:
        out['paths'] = dict((k, eff_path_item(v)) for k, v in o['paths'].items())
    if 'components' in o:
        c = out['components'] = dict(o['components'])
        for k, fn in (('parameters', eff_parameter), ('requestBodies', eff_body), ('responses', eff_response)):
            if c.get(k):
                c[k] = dict((n, fn(x)) for n, x in c[k].items())
    return out
