"""C09: migrating 2.0 schemas, security, info and servers to 3.0 preserves meaning.

Explored: every combination of up to k members (ordinary and falsy values) of every such object, at every place it can stand, and
every combination of host, basePath and schemes. The whole migrated document is compared with an independent reference
conversion (mc/ref23.py), so that anything lost, changed, moved to a wrong place or added is seen.
"""
import copy
import itertools
import ref23
from core import Fail, expect, expect_eq, same, short, first_diff
from env import MemApp
from view import view
from props.c08 import anytype

ID, LEVEL = 'C09', 'model_checking'
RULE = 'a state is a 2.0 document, a transition its migration; the whole document is compared with the reference conversion'
BOUNDS = {'quick': 'every kind of shared object alone and in pairs, pairs of schema members at 9 places and chains of nesting to depth 3, pairs of document members, all host x basePath x schemes, all security schemes',
          'thorough': 'triples of schema members at 9 places, nesting to depth 4, triples of document members'}
ASSUMPTIONS = ['documents are valid 2.0', 'vendor extensions are not part of the property', 'the default scheme when none is declared is not specified (http, https or network-path accepted)',
               'empty required/allOf/properties and additionalProperties: true mean the same as absent']
R = 'http://h/root.json'

SCH = [('type', 'object'), ('type', 'integer'), ('type', 'string'), ('format', 'int64'), ('format', ''), ('title', 't'), ('title', ''), ('description', 'd'), ('description', ''),
       ('default', 0), ('default', ''), ('default', False), ('default', {'k': [0, {'z': ''}]}), ('multipleOf', 2), ('maximum', 0), ('maximum', 1.5), ('exclusiveMaximum', True),
       ('exclusiveMaximum', False), ('minimum', 0), ('minimum', -1.5), ('exclusiveMinimum', True), ('exclusiveMinimum', False), ('maxLength', 0), ('maxLength', 3), ('minLength', 0),
       ('pattern', 'p'), ('pattern', ''), ('maxItems', 0), ('minItems', 0), ('uniqueItems', True), ('uniqueItems', False), ('maxProperties', 0), ('minProperties', 0),
       ('required', ['a/b', 'n']), ('enum', ['', 0, False]), ('enum', ['x']), ('allOf', [{'title': 'x'}, {'$ref': '#/definitions/D~1x'}, {}]),
       ('items', {'type': 'string', 'default': ''}), ('items', {'$ref': '#/definitions/D'}), ('items', {}), ('properties', {'a/b': {'type': 'string'}, '~': {'$ref': '#/definitions/D~1x'}, '': {}}),
       ('additionalProperties', True), ('additionalProperties', False), ('additionalProperties', {'type': 'integer', 'minimum': 0}), ('additionalProperties', {'$ref': '#/definitions/D'}),
       ('additionalProperties', {}), ('discriminator', 'n'), ('readOnly', True), ('readOnly', False), ('xml', {'name': 'n'}),
       ('xml', {'name': '', 'namespace': '', 'prefix': '', 'attribute': False, 'wrapped': False}), ('xml', {'attribute': True, 'wrapped': True, 'prefix': 'p'}),
       ('externalDocs', {'url': 'u', 'description': ''}), ('externalDocs', {'url': 'u'}), ('example', ''), ('example', 0), ('example', {'a': [False]}), ('example', [])]
NEST = [lambda s: {'type': 'array', 'items': s}, lambda s: {'properties': {'p/q': s, 'r': {'type': 'string'}}}, lambda s: {'allOf': [{'title': 'o'}, s]},
        lambda s: {'additionalProperties': s}]


def place(k, s):
    d = base()
    if k == 0:
        d['definitions'].update({'N/~': s})
    elif k == 1:
        d['paths'] = {'/x': {'post': op(parameters=[{'in': 'body', 'name': 'b', 'schema': s}])}}
    elif k == 2:
        d['paths'] = {'/x': {'get': {'responses': {'200': {'description': 'd', 'schema': s}}}}}
        d['produces'] = ['application/json', 'a/b']
    elif k == 3:
        d['responses'] = {'R': {'description': '', 'schema': s}}
        d['produces'] = ['application/json']
    elif k == 4:
        d['parameters'] = {'P': {'in': 'body', 'name': 'b', 'required': True, 'schema': s}}
    else:
        d['definitions'].update({'N': NEST[k - 5](s)})
    return d


def op(**kw):
    return dict({'responses': {'200': {'description': 'd'}}}, **kw)


def base():
    return {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {'/p': {'get': op()}}, 'host': 'api.h:8', 'basePath': '/v/1', 'schemes': ['http'],
            'definitions': {'D/x': {'type': 'object'}, 'D': {'type': 'string'}}}


SEC = [{'type': 'basic'}, {'type': 'basic', 'description': ''}, {'type': 'apiKey', 'name': 'k', 'in': 'header'}, {'type': 'apiKey', 'name': '', 'in': 'query', 'description': 'd'}]
for _f in ('implicit', 'password', 'application', 'accessCode'):
    for _s in ({}, {'': ''}, {'a/b': 'x', 'read:~': ''}):
        for _d in (None, 'd'):
            _o = {'type': 'oauth2', 'flow': _f, 'scopes': _s}
            if _f in ('implicit', 'accessCode'):
                _o['authorizationUrl'] = 'http://a/'
            if _f != 'implicit':
                _o['tokenUrl'] = 'http://t/'
            if _d:
                _o['description'] = _d
            SEC.append(_o)

DOC = ([('info', dict({'title': 't', 'version': '1'}, **x)) for x in (
    {}, {'title': '', 'version': ''}, {'description': '', 'termsOfService': ''}, {'description': 'd', 'termsOfService': 't'}, {'contact': {'name': 'n', 'url': 'u', 'email': 'e'}},
    {'contact': {'name': ''}}, {'contact': {'email': ''}, 'license': {'name': 'l'}}, {'license': {'name': 'l', 'url': 'u'}}, {'license': {'name': '', 'url': ''}})] +
    [('tags', t) for t in ([{'name': 't'}], [{'name': 'b', 'description': ''}, {'name': 'a', 'description': 'd', 'externalDocs': {'url': 'u'}}],
                           [{'name': '', 'externalDocs': {'url': '', 'description': ''}}])] +
    [('externalDocs', e) for e in ({'url': 'u'}, {'url': 'u', 'description': 'd'}, {'url': 'u', 'description': ''})] +
    [('security', s) for s in ([{'k': []}], [{'k': [], 'o/~': ['b', 'a']}, {}], [{'o/~': ['']}], [])] +
    [('securityDefinitions', {'k': SEC[2], 'o/~': SEC[-1]}), ('securityDefinitions', {'': SEC[0]}),
     ('parameters', {'q/~': {'in': 'query', 'name': 'q', 'type': 'integer', 'minimum': 0, 'default': 0}, 'b': {'in': 'body', 'name': 'b', 'description': '', 'schema': {'$ref': '#/definitions/D'}}}),
     ('parameters', {'f': {'in': 'formData', 'name': 'f', 'type': 'string', 'required': True}, 'u': {'in': 'formData', 'name': 'u', 'type': 'file'}}),
     ('parameters', {'h': {'in': 'header', 'name': 'h', 'type': 'array', 'items': {'type': 'string'}, 'collectionFormat': 'csv', 'required': False}}),
     ('responses', {'r/~': {'description': '', 'headers': {'X-~': {'type': 'string', 'default': '', 'description': ''}}}, 's': {'description': 'd', 'schema': {'$ref': '#/definitions/D'}}}),
     ('responses', {'s': {'description': 'd', 'schema': {'type': 'array', 'items': {'$ref': '#/definitions/D'}}, 'examples': {'a/b': 0}}}),
     ('consumes', ['application/json', 'multipart/form-data']), ('produces', ['application/xml', 'application/json'])])
# kinds of shared objects, with and without a use
KINDS = [('definitions', {'D': {'type': 'string'}}, {}), ('definitions', {'D': {'type': 'string'}}, {'parameters': [{'in': 'body', 'name': 'b', 'schema': {'$ref': '#/definitions/D'}}]}),
         ('parameters', {'q': {'in': 'query', 'name': 'q', 'type': 'string'}}, {}), ('parameters', {'b': {'in': 'body', 'name': 'b', 'schema': {'type': 'string'}}}, {}),
         ('parameters', {'q': {'in': 'query', 'name': 'q', 'type': 'string'}}, {'parameters': [{'$ref': '#/parameters/q'}]}),
         ('responses', {'r': {'description': 'd'}}, {}), ('responses', {'r': {'description': 'd'}}, {'responses': {'200': {'$ref': '#/responses/r'}}}),
         ('securityDefinitions', {'k': SEC[0]}, {}), ('securityDefinitions', {'k': SEC[2]}, {'security': [{'k': []}]})]
HOSTS = [None, 'h', 'h:8080', 'localhost']
BASES = [None, '', '/', '/v1', '/v/1/', '/{t}/a b']
SCHEMES = [None, [], ['http'], ['https'], ['https', 'http'], ['wss', 'ws', 'http'], ['ws']]


def cases(tier):
    deep = tier == 'thorough'
    yield ['servers']
    for i in range(len(KINDS)):
        yield ['only', i]
    for k in range(9):
        for i in range(len(SCH)):
            yield ['schema', k, i, deep]
    for i in range(len(SCH)):
        yield ['nest', i, 4 if deep else 3]
    for i in range(len(SEC)):
        yield ['security', i]
    for i in range(len(DOC)):
        yield ['doc', i, deep]


def uniq(pairs):
    return len(set(k for k, _ in pairs)) == len(pairs)


def documents(case):
    kind = case[0]
    if kind == 'servers':
        for h, b, s in itertools.product(HOSTS, BASES, SCHEMES):
            d = base()
            for k, v in (('host', h), ('basePath', b), ('schemes', s)):
                d.pop(k)
                if v is not None:
                    d[k] = v
            yield d
    elif kind == 'schema':
        k, i, deep = case[1:]
        for n in range(3 if deep else 2):
            if k >= 5 and n == 2:
                continue
            for c in itertools.combinations(range(i + 1, len(SCH)), n):
                pairs = [SCH[i]] + [SCH[x] for x in c]
                if uniq(pairs):
                    yield place(k, copy.deepcopy(dict(pairs)))
    elif kind == 'nest':
        i, depth = case[1:]
        for n in range(2, depth + 1):
            for chain in itertools.product(NEST, repeat=n):
                s = copy.deepcopy(dict([SCH[i]]))
                for f in chain:
                    s = f(s)
                yield place(0, s)
                if n == 2:
                    yield place(1, s)
    elif kind == 'only':
        # every kind of shared object alone, and any two of them
        k, v, use = KINDS[case[1]]
        for k2, v2, use2 in [(None, None, {})] + [x for x in KINDS if x[0] != k]:
            for extra in ({}, {'security': [{'k': []}]}, {'host': 'h'}, {'tags': [{'name': 't'}]}):
                d = {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {'/p': {'get': op(**copy.deepcopy(dict(use, **use2)))}}}
                d[k] = copy.deepcopy(v)
                if k2:
                    d[k2] = copy.deepcopy(v2)
                d.update(copy.deepcopy(extra))
                yield d
                if not use and not use2:
                    yield dict(copy.deepcopy(d), paths={})
    elif kind == 'security':
        for j in range(len(SEC)):
            d = base()
            d['securityDefinitions'] = {'s/~1': copy.deepcopy(SEC[case[1]]), 's': copy.deepcopy(SEC[j])}
            d['security'] = [{'s': []}, {'s/~1': ['z', 'a']}]
            d['paths']['/p']['get']['security'] = [{'s/~1': [], 's': ['']}]
            yield d
    elif kind == 'doc':
        i, deep = case[1:]
        for n in range(3 if deep else 2):
            for c in itertools.combinations(range(i + 1, len(DOC)), n):
                pairs = [DOC[i]] + [DOC[x] for x in c]
                if uniq(pairs):
                    d = base()
                    d.update(copy.deepcopy(dict(pairs)))
                    yield d


def run(case, st):
    for d in documents(case):
        check(d, st)
    st.outcome(case[0])


def check(d, st):
    st.state(d)
    st.trans()
    src = copy.deepcopy(d)
    try:
        app = MemApp({R: d}, R, '3.0.0')
    except Exception as e:
        raise Fail('migrating %s: %s(%s)' % (short(src, 3000), type(e).__name__, e))
    expect(same(d, src), 'the source document was modified')
    got = view(app.root, 'OpenApi')
    urls = [s.get('url') for s in got.get('servers') or []]
    want_urls = ref23.servers(src, R)
    expect(len(urls) == len(want_urls) and all(u in w for u, w in zip(urls, want_urls)) and all(set(s) == {'url'} for s in got['servers']),
           'servers %r of the migration of %s, expected %r' % (got.get('servers'), short(src, 1500), want_urls))
    got.pop('servers', None)
    got = tidy(ref23.eff_document(got))
    want = anytype(tidy(ref23.document(src)), got)
    if not same(got, want):
        raise Fail('migration of %s\n  expected %s\n  got      %s\n  at %s' % (short(src, 3000), short(want, 1500), short(got, 1500), first_diff(got, want)))
    st.trace()


SCHEMA_MAPS = ('schemas', 'properties')


def tidy(v, key=None):
    """without empty containers where empty and absent mean the same; schemas, examples and defaults are left alone"""
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            if key not in SCHEMA_MAPS and (k in ('example', 'default', 'enum') or k == 'scopes'):
                out[k] = x
                continue
            t = tidy(x, k if key not in SCHEMA_MAPS else None)
            if t in ([], {}) and not isinstance(t, bool) and not (key in SCHEMA_MAPS or k in ('schema', 'items', 'additionalProperties', 'security')):
                continue
            out[k] = t
        return out
    if isinstance(v, list):
        return [tidy(x) for x in v]
    return v
