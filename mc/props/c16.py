"""C16: migrating Swagger 1.2 resources yields the equivalent 2.0 document.

Explored: all listings that differ from a base listing in up to k of its dimensions (number and names of resources, base paths, api paths, methods, types,
documentation, media types, parameters, authorizations, information, models, inheritance), and exhaustively every combination of the options
of one parameter, property and return type. The migrated document is compared with a reference conversion of the raw documents that shares no code
with pyopenapi, and every reference has to lead to the very definition of the same resource.
"""
import copy
import itertools
import docs
from core import Fail, expect, expect_eq, same, short, first_diff
from env import MemApp
import ref23
from graph import real
from view import view
from props import c09

ID, LEVEL = 'C16', 'model_checking'
RULE = 'a state is a listing with its resources, a transition is its migration to 2.0 (and to 3.0); variants are combined exhaustively up to the bound on deviations from the base listing'
BOUNDS = {'quick': '0 to 2 deviations out of about 150 variants of 14 dimensions; every parameter of 6 kinds x 6 types x 3 x 6 options x 9 limits (and pairs of items), every property and return type of 8 types x options; single deviations (and pairs that move operations) also converted to 3.0 and compared in full',
          'thorough': 'up to 3 deviations out of the variants of 14 dimensions'}
ASSUMPTIONS = ['base paths of all resources are on the same host', 'response messages, token request endpoints and descriptions of apis and resources are not converted (documented)', 'empty texts in info are as good as none',
               'an operation that overrides authorizations of its declaration by none is not used', 'ids of models equal their names, methods and paths are not repeated']

ROOT = 'http://h/d/root.json'


# ------------------------------------------------------------------ reference

PRIMITIVE = ('integer', 'number', 'string', 'boolean', 'array', 'void')


def qualified(scope, name, sep):
    return scope + sep + name if scope else name


def target(scope, name, sep):
    return '#/definitions/' + docs.esc(qualified(scope, name, sep))


def limits(o):
    out = {}
    for k in ('minimum', 'maximum'):
        if o.get(k) not in (None, ''):
            v = o[k]
            if o['type'] == 'integer':
                out[k] = int(v) if not isinstance(v, str) or v.lstrip('-').isdigit() else int(float(v))
            else:
                out[k] = float(v)
    return out


def kind_of(o, scope, sep):
    out = {}
    if o.get('$ref'):
        out['$ref'] = target(scope, o['$ref'], sep)
    if o.get('type') in PRIMITIVE:
        out['type'] = o['type']
    elif o.get('type'):
        out['$ref'] = target(scope, o['type'], sep)
    return out


def schema(o, scope, sep):
    out = kind_of(o, scope, sep)
    for a, b in (('format', 'format'), ('defaultValue', 'default'), ('uniqueItems', 'uniqueItems'), ('enum', 'enum')):
        if a in o:
            out[b] = o[a]
    out.update(limits(o))
    if 'items' in o:
        out['items'] = kind_of(o['items'], scope, sep)
        if 'format' in o['items']:
            out['items']['format'] = o['items']['format']
    return out


def pick(o, *names):
    return dict((k, o[k]) for k in names if k in o)


def parameter(p, scope, sep):
    out = pick(p, 'name', 'required', 'description')
    out['in'] = 'formData' if p['paramType'] == 'form' else p['paramType']
    if out['in'] == 'body':
        out['schema'] = schema(p, scope, sep)
        return out
    if p.get('allowMultiple') is True and 'items' not in p:
        out.update(pick(p, 'uniqueItems'), type='array', collectionFormat='csv')
        out['items'] = dict(pick(p, 'format', 'enum'), type=p['type'].lower(), **limits(p))
        if 'defaultValue' in p:
            out['default'] = [p['defaultValue']]
        return out
    out.update(pick(p, 'format', 'enum'), type=p['type'].lower(), **limits(p))
    if 'defaultValue' in p:
        out['default'] = p['defaultValue']
    if 'items' in p:
        out.update(pick(p, 'uniqueItems'), collectionFormat='csv', items=pick(p['items'], 'type', 'format'))
    return out


def split(url):
    if '://' in url:
        host, slash, path = url.partition('://')[2].partition('/')
        return host, slash + path
    return '', url


def convert(lst, apis, sep):
    host, paths, defs = None, {}, {}
    tags = []
    for name in sorted(apis):
        d = apis[name]
        scope = d.get('resourcePath', '/' + name)[1:]
        if scope not in tags:
            tags.append(scope)
        for api in d.get('apis', []):
            for op in api['operations']:
                out = {'operationId': op['nickname'], 'deprecated': op.get('deprecated') == 'true', 'tags': [scope] if scope else []}
                out.update(pick(op, 'summary'))
                if 'notes' in op:
                    out['description'] = op['notes']
                for m in ('consumes', 'produces'):
                    out[m] = op.get(m) or d.get(m) or []
                out['parameters'] = [parameter(p, scope, sep) for p in op.get('parameters', [])]
                auth = op.get('authorizations') or d.get('authorizations') or {}
                out['security'] = sorted([{k: [s['scope'] for s in v]} for k, v in auth.items()], key=repr)
                out['responses'] = {'default': {'description': ''}}
                if op['type'] != 'void':
                    out['responses']['default']['schema'] = schema(op, scope, sep)
                h, path = split(d['basePath'] + api['path'])
                assert host in (None, h)
                host = h
                assert op['method'].lower() not in paths.get(path, {})
                paths.setdefault(path, {})[op['method'].lower()] = out
        for m in d.get('models', {}).values():
            s = defs.setdefault(qualified(scope, m['id'], sep), {})
            s['properties'] = dict((k, dict(schema(p, scope, sep), **pick(p, 'description'))) for k, p in m['properties'].items())
            s.update(pick(m, 'required', 'discriminator', 'description'))
            for t in m.get('subTypes', []):
                defs.setdefault(qualified(scope, t, sep), {}).setdefault('allOf', []).append({'$ref': target(scope, m['id'], sep)})
    for s in defs.values():
        if 'allOf' in s:
            s['allOf'].sort(key=repr)
    info = {'version': lst.get('apiVersion')}
    i = lst.get('info', {})
    info.update((b, i[a]) for a, b in (('title', 'title'), ('description', 'description'), ('termsOfServiceUrl', 'termsOfService')) if i.get(a))
    info['contact'] = {'email': i.get('contact')} if i.get('contact') else None
    info['license'] = dict((b, i[a]) for a, b in (('license', 'name'), ('licenseUrl', 'url')) if i.get(a))
    secs = {}
    for name, a in lst.get('authorizations', {}).items():
        s = {'type': 'basic' if a['type'] == 'basicAuth' else a['type'], 'scopes': dict((x['scope'], x.get('description')) for x in a.get('scopes', []))}
        if a['type'] == 'oauth2':
            g = a.get('grantTypes', {})
            url = g.get('implicit', {}).get('loginEndpoint', {}).get('url')
            token = g.get('authorization_code', {}).get('tokenEndpoint', {}).get('url')
            s.update(authorizationUrl=url, tokenUrl=token, flow='implicit' if url else 'access_code' if token else None)
        elif a['type'] == 'apiKey':
            s.update({'name': a['keyname'], 'in': a['passAs']})
        secs[name] = s
    return {'swagger': '2.0', 'host': host or '', 'info': info, 'paths': paths, 'definitions': defs, 'securityDefinitions': secs, 'tags': sorted(tags)}


def clean(x):
    """without what is not there"""
    if isinstance(x, dict):
        x = dict((k, clean(v)) for k, v in x.items())
        return dict((k, v) for k, v in x.items() if v is not None and v != {} and v != [])
    return [clean(v) for v in x] if isinstance(x, list) else x


def observed(d):
    """the migrated document in the terms of the reference"""
    d = copy.deepcopy(d)
    base = d.get('basePath') or ''
    paths = {}
    for p, item in d.get('paths', {}).items():
        for m, op in item.items():
            if isinstance(op, dict):
                op['security'] = sorted(op.get('security', []), key=repr)
                paths.setdefault(base + p, {})[m] = op
                for k in list(op['responses']):
                    op['responses'][k]['description'] = ''
    for s in d.get('definitions', {}).values():
        if 'allOf' in s:
            s['allOf'].sort(key=repr)
    out = dict((k, d.get(k)) for k in ('swagger', 'host', 'info', 'definitions', 'securityDefinitions'))
    return dict(out, host=out['host'] or '', paths=paths, tags=sorted(t['name'] for t in d.get('tags', [])))


# ------------------------------------------------------------------ check

def check(lst, apis, st, sep=None, further=True):
    st.state([lst, apis])
    s = sep or '!##!'
    ds = dict([(ROOT, lst)] + [('http://h/d/' + k, v) for k, v in apis.items()])
    try:
        app = MemApp(ds, ROOT, sep=sep)
        for to in ('2.0', '3.0.0')[:1 + further]:
            st.trans()
            try:
                root = app.migrate_obj(app.raw, ROOT, to)
            except Exception as e:
                raise Fail('migrating to %s: %s(%s)' % (to, type(e).__name__, e))
            if to == '2.0':
                compare(lst, apis, root, s)
                two = root.dump()
            else:
                compare3(two, root)
                want = convert(lst, apis, s)
                got = dict((split_server(root) + p, sorted(m for m in i if m in METHODS and i[m])) for p, i in root.dump().get('paths', {}).items())
                full = dict((('//' + want['host'] if want['host'] else '') + p, sorted(o)) for p, o in want['paths'].items())
                expect_eq(got, full, 'operations in 3.0')
    except Fail as e:
        raise Fail('%s\n  %s' % (short([lst, apis], 3000), e))
    st.trace()


def compare3(two, root):
    """the 3.0 document against the reference conversion of the 2.0 one"""
    got = view(root, 'OpenApi')
    got.pop('servers', None)
    got, want = [clean(c09.tidy(x)) for x in (ref23.eff_document(got), ref23.document(two))]
    want = c09.anytype(want, got)
    if not same(got, want):
        expect_eq(got, want, 'migrated to 3.0: %s' % first_diff(got, want))


METHODS = 'get put post delete options head patch'.split()


def split_server(root):
    """'//host' of the first server"""
    servers = root.dump().get('servers') or [{'url': '/'}]
    u = servers[0]['url']
    return '//' + u.partition('://')[2].strip('/') if '://' in u else '//' + u[2:].strip('/') if u.startswith('//') else ''


def compare(lst, apis, root, sep):
    want, got = clean(convert(lst, apis, sep)), clean(observed(root.dump()))
    if not same(want, got):
        expect_eq(got, want, 'migrated to 2.0: %s' % first_diff(want, got))
    check_refs(root, root, [], sep)


def check_refs(root, o, where, sep):
    for toks, v in docs.nodes(root.dump()):
        if toks and toks[-1] == '$ref' and isinstance(v, str):
            obj = real(root.resolve(list(toks[:-1])))
            name = docs.unesc(v.rpartition('/')[2])
            expect(v.startswith('#/definitions/') or v.startswith(ROOT), '%s refers to %s', toks, v)
            if name not in root.definitions:
                continue
            to = real(obj.get_attrs('migration').ref_obj)
            expect(to is real(root.definitions[name]), '%s: %s leads to another object', toks, v)


# ------------------------------------------------------------------ documents

def model(name, props=None, **k):
    return dict({'id': name, 'properties': props if props is not None else {'s': {'type': 'string', 'description': name}}}, **k)


def operation(method, nick, type_='void', params=(), **k):
    return dict({'method': method, 'nickname': nick, 'type': type_, 'parameters': list(params)}, **k)


def param(kind, name, type_='string', **k):
    return dict({'paramType': kind, 'name': name, 'type': type_}, **k)


def base():
    def decl(r):
        return {'swaggerVersion': '1.2', 'basePath': 'http://h/api', 'resourcePath': '/' + r, 'apis': [{'path': '/%s/{id}' % r, 'operations': [
            operation('GET', 'get' + r, 'M', [param('path', 'id', 'integer', required=True)], summary='s' + r)]}], 'models': {'M': model('M', {'r': {'$ref': 'N'}}), 'N': model('N')}}
    return {'swaggerVersion': '1.2', 'apiVersion': '1', 'info': {'title': 't', 'description': 'd'}, 'apis': [{'path': '/pet'}]}, {'pet': decl('pet')}


def at(x, *path):
    for p in path:
        x = x[p]
    return x


DIM = {}


def dim(name):
    def add(fn):
        DIM.setdefault(name, []).append(fn)
        return fn
    return add


def put(name, path, *values):
    """a variant per value; path into the api declaration"""
    for v in values:
        def edit(l, a, v=v):
            o = a['pet']
            for p in path[:-1]:
                o = o[p]
            if v is docs.MISSING:
                o.pop(path[-1], None)
            else:
                o[path[-1]] = copy.deepcopy(v)
        DIM.setdefault(name, []).append(edit)


def putl(name, path, *values):
    for v in values:
        def edit(l, a, v=v):
            o = l
            for p in path[:-1]:
                o = o[p]
            if v is docs.MISSING:
                o.pop(path[-1], None)
            else:
                o[path[-1]] = copy.deepcopy(v)
        DIM.setdefault(name, []).append(edit)


OP = ['apis', 0, 'operations', 0]
put('base path', ['basePath'], 'http://h', 'https://h:8080/v1', '', '/rel', 'http://h/a/b.c', 'http://h.h/api/pet')
put('resource', ['resourcePath'], docs.MISSING, '/', '/admin/pet', '/a~b', '/p t', u'/\u00e9', '/pet.x', '/~1', '/pet/{id}')
put('api path', ['apis', 0, 'path'], '/', '', '/pet', '/pet/{a}/x/{b}', '/pet;x', '/pe~t', '/p%20', '/pet.{format}', '/pet/:id')
put('method', OP + ['method'], 'PUT', 'POST', 'DELETE', 'PATCH', 'HEAD', 'OPTIONS', 'get')
put('nickname', OP + ['nickname'], 'x y', '0', u'\u00e9')
put('summary', OP + ['summary'], docs.MISSING, '', u'\u00e9\n')
put('notes', OP + ['notes'], 'n', '')
put('deprecated', OP + ['deprecated'], 'true', 'false')
put('op consumes', OP + ['consumes'], ['a/b'], ['a/b', 'c/d'], [])
put('op produces', OP + ['produces'], ['a/b'], ['x/y', 'a/b'], [])
put('consumes', ['consumes'], ['g/c'], [])
put('produces', ['produces'], ['g/p', 'g/q'], [])
S1 = {'scope': 's/1', 'description': 'd'}
put('op auth', OP + ['authorizations'], {}, {'o': [S1]}, {'o': [S1, {'scope': 't'}]}, {'k': []}, {'o': [S1], 'k': []})
put('auth', ['authorizations'], {}, {'o': [S1]}, {'k': [], 'b/c': []})
put('type', OP + ['type'], 'void', 'string', 'N', 'boolean')
for t in (dict(type='array', items={'$ref': 'M'}), dict(type='array', items={'type': 'string', 'format': 'date'}), dict(type='array', items={'$ref': 'N'}, uniqueItems=True), dict(type='integer', format='int32', minimum='0'), dict(type='string', enum=['a', ''], defaultValue='')):
    DIM['type'].append(lambda l, a, t=t: at(a['pet'], *OP).update(copy.deepcopy(t)))
put('parameters', OP + ['parameters'], docs.MISSING, [], [param('path', 'id'), param('query', 'q', allowMultiple=True)], [param('body', 'body', 'M', required=True)], [param('body', 'body', 'array', items={'$ref': 'N'})], [param('form', 'f', 'File'), param('form', 'g')],
    [param('header', 'X-H', 'integer', minimum='1', maximum='2'), param('path', 'id')], [param('query', 'q', 'array', items={'type': 'integer', 'format': 'int64'})])
putl('info', ['info'], docs.MISSING, {'title': 't', 'description': 'd', 'contact': 'c'}, {'title': 't', 'description': 'd', 'license': 'l'}, {'title': 't', 'description': 'd', 'licenseUrl': 'u'}, {'title': 't', 'description': 'd', 'termsOfServiceUrl': 'u', 'license': 'l', 'licenseUrl': 'lu', 'contact': 'c'})
putl('version', ['apiVersion'], docs.MISSING, '', '1.0.0', '0')
IMP = {'loginEndpoint': {'url': 'http://l'}, 'tokenName': 'n'}
CODE = {'tokenRequestEndpoint': {'url': 'a', 'clientIdName': 'b'}, 'tokenEndpoint': {'url': 'http://t', 'tokenName': 'n'}}
KEY = {'type': 'apiKey', 'passAs': 'header', 'keyname': 'X-K'}
putl('schemes', ['authorizations'], {}, {'b': {'type': 'basicAuth'}}, {'k': KEY}, {'k': dict(KEY, passAs='query'), 'b': {'type': 'basicAuth'}}, {'o': {'type': 'oauth2', 'scopes': [S1], 'grantTypes': {'implicit': IMP}}},
     {'o': {'type': 'oauth2', 'scopes': [S1, {'scope': 't', 'description': ''}], 'grantTypes': {'authorization_code': CODE}}}, {'o': {'type': 'oauth2', 'grantTypes': {'implicit': IMP, 'authorization_code': CODE}}}, 
     {'a/b': KEY, 'm~n': dict(KEY, keyname='Y'), '': {'type': 'basicAuth'}, u'\u00e9': KEY, '~1': dict(KEY, keyname='Z')}, {'o': {'type': 'oauth2', 'grantTypes': {'authorization_code': {'tokenEndpoint': CODE['tokenEndpoint']}}}})
TREE = {'M': model('M', subTypes=['N', 'Y'], discriminator='s'), 'N': model('N', subTypes=['Z']), 'Y': model('Y', {}), 'Z': model('Z', {'p': {'$ref': 'M'}})}
put('models', ['models'], docs.MISSING, {}, {'M': model('M')}, {'M': model('M', {})}, {'M': model('M', required=['s'], description='D', discriminator='s')}, {'M': model('M', description='', required=[])}, TREE, dict(reversed(list(TREE.items()))),
    {'M': model('M', {'self': {'$ref': 'M'}, 'l': {'type': 'array', 'items': {'$ref': 'M'}}}, subTypes=['N']), 'N': model('N', {'up': {'type': 'M'}})},
    {'M': model('M', {'a/b': {'$ref': 'a/b'}, '~0': {'$ref': 'm~n'}, '': {'type': 'a/b'}}, subTypes=['a/b']), 'a/b': model('a/b', subTypes=['m~n']), 'm~n': model('m~n'), 'N': model('N')},
    {'M': model('M', subTypes=['N']), 'O': model('O', subTypes=['N']), 'N': model('N')}, {'M': model('M', subTypes=[]), 'string1': model('string1', {'a': {'type': 'string1'}})})


@dim('resources')
def second_same(l, a):
    """another resource with the same names of models and other contents"""
    l['apis'].append({'path': '/store'})
    a['store'] = {'swaggerVersion': '1.2', 'basePath': a['pet']['basePath'], 'resourcePath': '/store', 'apis': [{'path': '/store', 'operations': [operation('GET', 'st', 'N')]}],
                  'models': {'N': model('N', {'m': {'$ref': 'M'}, 'o': {'type': 'integer'}}), 'M': model('M', {'own': {'type': 'boolean'}}, required=['own'])}}


@dim('resources')
def second_prefix(l, a):
    l['apis'].insert(0, {'path': '/pets'})
    a['pets'] = {'swaggerVersion': '1.2', 'basePath': a['pet']['basePath'], 'resourcePath': '/pets', 'apis': [{'path': '/pets', 'operations': [operation('GET', 'ps', 'array', items={'$ref': 'M'})]}], 'models': {'M': model('M', subTypes=['Q']), 'Q': model('Q')}}


@dim('resources')
def second_elsewhere(l, a):
    """another base path on the same host"""
    l['apis'].append({'path': '/x'})
    a['x'] = {'swaggerVersion': '1.2', 'basePath': host_of(a) + '/other', 'resourcePath': '/x', 'produces': ['x/x'], 'apis': [{'path': '/x', 'operations': [operation('GET', 'x', 'void')]}]}


@dim('resources')
def second_scheme(l, a):
    """another scheme on the same host"""
    l['apis'].append({'path': '/x'})
    b = a['pet']['basePath']
    a['x'] = {'swaggerVersion': '1.2', 'basePath': b.replace('http', 'ws', 1) if '://' in b else b, 'resourcePath': '/x', 'apis': [{'path': '/y', 'operations': [operation('GET', 'x', 'void')]}]}


@dim('resources')
def third_scheme_same_path(l, a):
    """the same path of the same host by another scheme, and cut in another way, with other methods"""
    b, api = a['pet']['basePath'], a['pet']['apis'][0]
    used = [o['method'].lower() for x in a['pet']['apis'] for o in x['operations'] if x['path'] == api['path']]
    free = [m for m in ('PUT', 'POST', 'HEAD', 'DELETE') if m.lower() not in used]
    other = b.replace('https', 'http', 1) if b.startswith('https') else b.replace('http', 'https', 1)
    cut = b.partition('://')[2].find('/') + b.find('://') + 3 if '://' in b else 0
    for n, (base, path) in (('x', (other, api['path'])), ('y', (b[:cut], b[cut:] + api['path']) if '/' in b.partition('://')[2] else (b, api['path']))):
        l['apis'].append({'path': '/' + n})
        a[n] = {'swaggerVersion': '1.2', 'basePath': base, 'resourcePath': '/' + n, 'apis': [{'path': path, 'operations': [operation(free.pop(), n, 'void')]}]}


@dim('resources')
def second_same_path(l, a):
    """the same path with another method in another resource"""
    l['apis'].append({'path': '/more'})
    p = a['pet']['apis'][0]['path']
    used = [o['method'].lower() for x in a['pet']['apis'] for o in x['operations'] if x['path'] == p]
    a['more'] = {'swaggerVersion': '1.2', 'basePath': a['pet']['basePath'], 'resourcePath': '/more', 'authorizations': {'z': []}, 'apis': [{'path': p, 'operations': [operation('PUT' if 'put' not in used else 'POST', 'more', 'void')]}]}


@dim('resources')
def second_same_end(l, a):
    """resources in other folders whose paths end, or start, with the name of another"""
    for path, r in (('b/pet', '/bp'), ('pet/b', '/pb'), ('b/pet.json', None), ('b', '/b')):
        l['apis'].append({'path': '/' + path})
        n = path.replace('/', '.')
        a[path] = {'swaggerVersion': '1.2', 'basePath': a['pet']['basePath'], 'apis': [{'path': '/' + n, 'operations': [operation('GET', n, 'M')]}], 'models': {'M': model('M', {n: {'type': 'string'}})}}
        if r:
            a[path]['resourcePath'] = r


@dim('resources')
def second_same_name(l, a):
    """two resources with the same resource path: one tag"""
    l['apis'].append({'path': '/more'})
    a['more'] = {'swaggerVersion': '1.2', 'basePath': a['pet']['basePath'], 'resourcePath': a['pet'].get('resourcePath', '/pet'), 'apis': [{'path': '/more', 'operations': [operation('PUT', 'more', 'void')]}], 'models': {'K': model('K')}}


@dim('resources')
def no_resources(l, a):
    l['apis'] = []
    a.clear()


@dim('apis')
def two_apis(l, a):
    a['pet']['apis'].append({'path': '/other', 'operations': [operation('GET', 'o1', 'void'), operation('POST', 'o2', 'N', [param('body', 'b', 'N')], consumes=['o/c'])]})


@dim('apis')
def two_operations(l, a):
    ops = a['pet']['apis'][0]['operations']
    m = 'PUT' if ops[0]['method'].lower() != 'put' else 'GET'
    ops.append(operation(m, 'second', 'N', [param('query', 'q')], notes='n2', deprecated='true', authorizations={'z': [{'scope': 'zs'}]}, produces=['z/z']))


@dim('apis')
def split_apis(l, a):
    """the same path in two entries"""
    x = a['pet']['apis'][0]
    m = 'PUT' if x['operations'][0]['method'].lower() != 'put' else 'GET'
    a['pet']['apis'].append({'path': x['path'], 'operations': [operation(m, 'second', 'string')]})


@dim('apis')
def no_operations(l, a):
    a['pet']['apis'][0]['operations'] = []


@dim('apis')
def no_apis(l, a):
    a['pet']['apis'] = []


def host_of(a):
    b = a['pet']['basePath']
    return b.partition('://')[0] + '://' + b.partition('://')[2].partition('/')[0] if '://' in b else ''


NAMES = ['base path', 'api path', 'resource', 'method', 'nickname', 'summary', 'notes', 'deprecated', 'op consumes', 'op produces', 'consumes', 'produces', 'op auth', 'auth', 'type', 'parameters', 'info', 'version', 'schemes', 'models', 'apis', 'resources']
PLACES = set(['base path', 'api path', 'method', 'apis'])      # what operations of 3.0 are located by
SEPS = [None, ':', '__', '/']
SMALL = ['base path', 'api path', 'resource', 'op auth', 'auth', 'type', 'parameters', 'models', 'apis', 'resources', 'schemes']


def cases(tier):
    assert sorted(NAMES) == sorted(DIM), set(NAMES) ^ set(DIM)
    yield ['vary', [], 0]
    for s in range(4):
        for n in NAMES:
            yield ['vary', [n], s]
    for a, b in itertools.combinations(NAMES, 2):
        yield ['vary', [a, b], 0]
    for k in ('path', 'query', 'header', 'form', 'body'):
        for t in TYPES:
            yield ['param', k, t]
    for t in TYPES + ['N', 'a/b', 'array']:
        yield ['property', t]
        yield ['return', t]
    if tier == 'thorough':
        for c in itertools.combinations(NAMES, 3):
            for i in range(len(DIM[c[0]])):
                if all(x in SMALL for x in c) or i % 3 == 0:
                    yield ['triple', list(c), i]


TYPES = ['string', 'integer', 'number', 'boolean', 'File', 'Integer']


def run(case, st):
    kind = case[0]
    if kind == 'vary':
        for pick_ in itertools.product(*[DIM[n] for n in case[1]]):
            varied(pick_, st, SEPS[case[2]], len(case[1]) < 2 or bool(set(case[1]) & PLACES))
    elif kind == 'triple':
        a, b, c = case[1]
        for pick_ in itertools.product([DIM[a][case[2]]], DIM[b], DIM[c]):
            varied(pick_, st, None, bool(set(case[1]) & PLACES))
    elif kind == 'param':
        check_params(case[1], case[2], st)
    else:
        check_types(kind, case[1], st)
    st.outcome(case[:2] if kind != 'triple' else kind)


def wanted(d):
    """names of all models an api declaration refers to"""
    out = set()
    for toks, v in docs.nodes({'apis': d.get('apis', []), 'models': d.get('models', {})}):
        if isinstance(v, str) and toks and (toks[-1] == '$ref' or toks[-1] == 'type' and v not in PRIMITIVE and v != 'File') and not (len(toks) > 2 and toks[-2] == 'properties'):
            out.add(v)
        if isinstance(v, list) and toks and toks[-1] == 'subTypes':
            out.update(v)
    return out


def varied(edits, st, sep, further=True):
    l, a = base()
    for e in edits:
        if 'pet' not in a:
            continue
        l2, a2 = copy.deepcopy([l, a])
        try:
            e(l2, a2)
        except (IndexError, KeyError):      # the place is gone
            continue
        l, a = l2, a2
    l, a = copy.deepcopy([l, a])
    for x in a.values():
        if wanted(x) - set(x.get('models', {})):
            return      # refers to what is not there
    d = a.get('pet')
    if d and d.get('authorizations') and any('authorizations' in o and not o['authorizations'] for x in d['apis'] for o in x['operations']):
        return      # see ASSUMPTIONS
    if d and (any((m.get(k) == [] for x in d['apis'] for m in x['operations'] for k in ('consumes', 'produces') if d.get(k)))):
        return
    check(l, a, st, sep, further)


# ------------------------------------------------------------------ all options

def many(params=None, props=None, ops=None):
    l, a = base()
    d = a['pet']
    if params is not None:
        d['apis'] = [{'path': '/p%d' % i, 'operations': [operation('POST', 'n%d' % i, 'void', p)]} for i, p in enumerate(params)]
    if props is not None:
        d['models']['M'] = model('M', dict(('p%d' % i, p) for i, p in enumerate(props)))
    if ops is not None:
        d['apis'] = [{'path': '/p%d' % i, 'operations': [dict(operation('POST', 'n%d' % i, 'void'), **o)]} for i, o in enumerate(ops)]
    return l, a


LIMITS = [('1', '2'), ('0', None), (None, '0'), ('1.0', '2.0'), ('-1.5', '2.5'), ('9223372036854775807', '9223372036854775807'), (0, 5), (-1, 1.0), ('-3', '1e3')]


def options(type_, kind):
    out = [{}]
    def also(*more):
        out[:] = [dict(a, **b) for a in out for b in more]
    if type_ in ('integer', 'number'):
        also({}, *[dict((k, v) for k, v in zip(('minimum', 'maximum'), x) if v is not None and (type_ == 'number' or not isinstance(v, str) or True)) for x in LIMITS])
        also({}, {'format': 'int64' if type_ == 'integer' else 'double'})
        also({}, {'defaultValue': 0}, {'defaultValue': 7})
        also({}, {'enum': ['0', '1']})
    elif type_ == 'string':
        also({}, {'format': 'date'}, {'format': ''})
        also({}, {'defaultValue': ''}, {'defaultValue': 'x'})
        also({}, {'enum': ['', 'a']}, {'enum': ['a']})
    elif type_ == 'boolean':
        also({}, {'defaultValue': False}, {'defaultValue': True})
    elif type_ == 'array':
        also(*[{'items': x} for x in ({'type': 'string'}, {'type': 'integer', 'format': 'int32'}, {'$ref': 'N'}, {'type': 'N'}, {'$ref': 'M'}) if kind in ('body', 'schema') or '$ref' not in x and x['type'] != 'N'])
        also({}, {'uniqueItems': True}, {'uniqueItems': False})
        also({}, {'defaultValue': []}, {'defaultValue': ['a']})
    return out


def check_params(kind, type_, st):
    types = [type_] + (['array'] if type_ == 'string' else []) + (['N', 'M'] if kind == 'body' and type_ == 'string' else [])
    if kind == 'body' and type_ == 'Integer' or kind != 'form' and type_ == 'File':
        return
    todo = []
    for t in types:
        for o in options(t, 'body' if kind == 'body' else 'param'):
            for multi in ({}, {'allowMultiple': False}, {'allowMultiple': True}):
                if kind == 'body' and multi.get('allowMultiple') or multi.get('allowMultiple') and t == 'array' and 'items' not in o or t == 'File' and multi.get('allowMultiple') or t == 'Integer' and multi.get('allowMultiple'):
                    continue
                for more in ({}, {'required': True, 'description': 'd'}, {'required': False, 'description': ''}):
                    if multi.get('allowMultiple') and t != 'array' and more.get('required') and 'uniqueItems' not in o:
                        more = dict(more, uniqueItems=True)
                    todo.append(param(kind, 'x', t, **dict(o, **dict(multi, **more))))
    for i in range(0, len(todo), 12):
        l, a = many(params=[[p] for p in todo[i:i + 12]])
        check(l, a, st)
    # two of them on the same operation
    for i in range(0, len(todo) - 25, 24):
        l, a = many(params=[[todo[i + k], dict(todo[i + k + 12], name='y', paramType='query' if kind == 'body' else kind, **({'type': 'string'} if kind == 'body' else {}))] for k in range(12)]) if kind != 'body' else many(params=[[p] for p in todo[i:i + 24:2]])
        check(l, a, st)


def check_types(kind, type_, st):
    t = {'type': type_}
    todo = []
    if type_ in ('File', 'Integer'):
        return
    for o in options(type_, 'schema'):
        for more in ({}, {'description': 'd'}, {'description': ''}) if kind == 'property' else ({}, {'summary': 's'}):
            todo.append(dict(t, **dict(o, **more)))
            if type_ == 'N' and kind == 'property':
                todo.append(dict({'$ref': 'N'}, **more))
    for i in range(0, len(todo), 12):
        l, a = many(props=todo[i:i + 12]) if kind == 'property' else many(ops=todo[i:i + 12])
        a['pet']['models']['a/b'] = model('a/b')
        check(l, a, st)
