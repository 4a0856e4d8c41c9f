"""C08: migrating 2.0 operations to 3.0 preserves parameters, bodies and responses.

Explored: every operation / path item of a bounded feature lattice (parameter kinds and options at both levels, consumes and
produces at both levels, several operations, references, responses), migrated by the real code and compared with an independent
reference conversion (mc/ref23.py) in effective form: serialisation defaults of OpenAPI 3.0 are filled in on both sides.
"""
import copy
import itertools
import ref23
from core import Fail, expect, expect_eq, same, short, first_diff
from docs import esc
from env import MemApp
from view import view

ID, LEVEL = 'C08', 'model_checking'
RULE = ('a state is a 2.0 document of the feature lattice; a transition is its migration; every path item of the migrated document '
        'is compared with the reference conversion, members that the reference does not have are violations')
BOUNDS = {'quick': 'all parameters x media type settings x level; pairs of parameters of 31 at all level combinations; responses x produces, pairs of responses; pairs of operation members',
          'thorough': 'in addition all triples of parameters over 3 levels/operations, all pairs under all media type settings, triples of operation members'}
ASSUMPTIONS = ['documents are valid 2.0 (one body at most, body and form not mixed, ssv/pipes only in query and formData, multi only in query and formData)',
               'the media type of a response without "produces" is not specified: any single one is accepted',
               'collectionFormat of nested items has no counterpart in 3.0', 'the schemes of an operation without a host have no counterpart in 3.0 (the servers are those of the document)']

R = 'http://h/root.json'

# parameters: name -> (2.0 parameter without name)
PARAMS = [
    {'in': 'query', 'type': 'string'},
    {'in': 'query', 'type': 'string', 'required': True, 'description': '', 'allowEmptyValue': True, 'default': '', 'enum': ['', 'a'], 'pattern': 'p', 'minLength': 0, 'maxLength': 9},
    {'in': 'query', 'type': 'integer', 'format': 'int64', 'required': False, 'allowEmptyValue': False, 'minimum': 0, 'maximum': 0, 'exclusiveMinimum': False,
     'exclusiveMaximum': True, 'multipleOf': 2, 'default': 0},
    {'in': 'query', 'type': 'array', 'items': {'type': 'string'}},
    {'in': 'query', 'type': 'array', 'items': {'type': 'string', 'enum': ['x'], 'default': ''}, 'collectionFormat': 'csv', 'minItems': 0, 'maxItems': 3, 'uniqueItems': False},
    {'in': 'query', 'type': 'array', 'items': {'type': 'array', 'minItems': 0, 'items': {'type': 'array', 'items': {'type': 'array', 'maxItems': 4, 'items': {'type': 'integer', 'minimum': 0}}}}, 'collectionFormat': 'multi', 'required': True},
    {'in': 'query', 'type': 'array', 'items': {'type': 'string'}, 'collectionFormat': 'ssv'},
    {'in': 'query', 'type': 'array', 'items': {'type': 'string'}, 'collectionFormat': 'pipes'},
    {'in': 'header', 'type': 'array', 'items': {'type': 'boolean', 'default': False}, 'description': 'd'},
    {'in': 'header', 'type': 'boolean', 'default': False},
    {'in': 'header', 'type': 'array', 'items': {'type': 'string'}, 'collectionFormat': 'csv', 'required': True},
    {'in': 'path', 'type': 'string', 'required': True, 'format': 'byte'},
    {'in': 'path', 'type': 'array', 'items': {'type': 'number'}, 'required': True},
    {'in': 'body', 'schema': {'type': 'object', 'title': '', 'properties': {'a/b': {'type': 'string', 'default': ''}, 'r': {'$ref': '#/definitions/D~1x'}}, 'required': ['a/b']}},
    {'in': 'body', 'schema': {'$ref': '#/definitions/D~1x'}, 'required': True, 'description': 'bd'},
    {'in': 'body', 'schema': {'type': 'array', 'items': {'$ref': '#/definitions/D'}}, 'required': False, 'description': ''},
    {'in': 'formData', 'type': 'string'},
    {'in': 'formData', 'type': 'string', 'required': True, 'description': 'fd', 'allowEmptyValue': True, 'enum': ['', 'b'], 'default': ''},
    {'in': 'formData', 'type': 'array', 'items': {'type': 'integer', 'maximum': 0}},
    {'in': 'formData', 'type': 'array', 'items': {'type': 'array', 'items': {'type': 'array', 'items': {'type': 'array', 'maxItems': 4, 'items': {'type': 'string', 'default': ''}}}}, 'collectionFormat': 'multi', 'required': True},
    {'in': 'formData', 'type': 'array', 'items': {'type': 'string'}, 'collectionFormat': 'pipes'},
    {'in': 'formData', 'type': 'array', 'items': {'type': 'string'}, 'collectionFormat': 'ssv', 'uniqueItems': True},
    {'in': 'formData', 'type': 'file', 'description': ''},
    {'in': 'formData', 'type': 'file', 'required': True, 'allowEmptyValue': True},
    {'in': 'formData', 'type': 'integer', 'minimum': 0, 'default': 0, 'required': False},
]
REFD = [0, 5, 10, 13, 14, 17, 22]        # also used through '#/parameters'
NP = len(PARAMS)
ALL = list(range(NP + len(REFD)))

CONSUMES = [None, ['application/json'], ['application/xml', 'application/json', 'a/b;c=d'], ['multipart/form-data'], ['application/x-www-form-urlencoded'],
            ['application/json', 'multipart/form-data', 'application/x-www-form-urlencoded'], []]
PRODUCES = [None, ['application/json'], ['application/xml', 'image/png'], []]
RESP = [
    {'description': 'd'},
    {'description': '', 'schema': {'type': 'object', 'properties': {'p': {'$ref': '#/definitions/D'}}}},
    {'description': 'd', 'schema': {'$ref': '#/definitions/D~1x'}, 'headers': {'X-a/b': {'type': 'string', 'description': '', 'default': '', 'enum': ['']}}},
    {'description': 'd', 'schema': {'type': 'array', 'items': {'type': 'string'}}, 'examples': {'application/json': ['x', 0, False]}},
    {'description': 'd', 'schema': {'type': 'file', 'description': '', 'title': 't', 'readOnly': False, 'example': 0, 'externalDocs': {'url': 'u'}}},
    {'description': 'd', 'headers': {'h': {'type': 'array', 'items': {'type': 'integer', 'minimum': 0}}, 'h/2': {'type': 'array', 'collectionFormat': 'csv',
                                                                                                           'items': {'type': 'array', 'items': {'type': 'array', 'items': {'type': 'array', 'items': {'type': 'string', 'enum': ['']}}}}}}},
    {'description': 'd', 'examples': {'text/plain': '', 'a/b': 0}},
    {'description': 'd', 'schema': {'type': 'string', 'default': ''}, 'examples': {'application/xml': '<a/>', 'image/png': False}, 'headers': {'h': {'type': 'boolean', 'default': False}}},
    {'$ref': '#/responses/R0'}, {'$ref': '#/responses/R1~1'}, {'$ref': '#/responses/R2'}, {'$ref': '#/responses/R4'},
]
FIELDS = [('summary', 's'), ('summary', ''), ('description', 'd'), ('description', ''), ('operationId', 'o'), ('deprecated', True), ('deprecated', False),
          ('tags', ['u', 't']), ('tags', ['u', 't', 'u']), ('security', []), ('security', [{'k': []}, {'o': ['b', 'a']}]), ('schemes', ['https', 'ws']),
          ('externalDocs', {'url': 'u'}), ('externalDocs', {'url': 'u', 'description': ''}), ('parameters', [dict(PARAMS[0], name='q')])]


def base():
    d = {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}, 'host': 'api.h:8', 'basePath': '/v/1', 'schemes': ['http'],
         'definitions': {'D/x': {'type': 'object', 'title': 'dx'}, 'D': {'type': 'string', 'title': 'd'}},
         'responses': {'R0': RESP[0], 'R1/': RESP[1], 'R2': RESP[5], 'R4': RESP[3]}}
    d['parameters'] = dict(('P/%d' % i, dict(PARAMS[i], name='P%d' % i)) for i in REFD)
    return d


def mk(i, name):
    """parameter i under a name; those past the end are references"""
    if i >= NP:
        return {'$ref': '#/parameters/P~1%d' % REFD[i - NP]}
    return dict(copy.deepcopy(PARAMS[i]), name=name)


def res(i):
    return PARAMS[i if i < NP else REFD[i - NP]]


def name_of(i, name):
    return 'P%d' % REFD[i - NP] if i >= NP else name


def compatible(ps):
    """parameters in force together: [(index, name)]"""
    ins = [res(i)['in'] for i, _ in ps]
    if ins.count('body') > 1 or 'body' in ins and 'formData' in ins:
        return False
    keys = [(res(i)['in'], name_of(i, n)) for i, n in ps]
    return len(set(keys)) == len(keys)


def cases(tier):
    deep = tier == 'thorough'
    for i in ALL:
        yield ['one', i]
    for i in ALL:
        yield ['pair', i, deep]
    for i in range(len(RESP)):
        yield ['resp', i]
    for i in range(len(FIELDS)):
        yield ['fields', i, deep]
    for i in range(NP):
        yield ['override', i]
    if deep:
        for i in ALL:
            for j in ALL:
                yield ['triple', i, j]


def op(**kw):
    return dict({'responses': {'200': {'description': 'd'}}}, **kw)


def documents(case):
    kind = case[0]
    if kind == 'one':
        i = case[1]
        for dc, oc in itertools.product(range(len(CONSUMES)), repeat=2):
            for level in ('op', 'path'):
                d = base()
                if CONSUMES[dc] is not None:
                    d['consumes'] = CONSUMES[dc]
                o = op()
                if CONSUMES[oc] is not None:
                    o['consumes'] = CONSUMES[oc]
                p = mk(i, 'n')
                item = {'post': o, 'get': op(operationId='other')}
                (o if level == 'op' else item)['parameters'] = [p]
                d['paths']['/x'] = item
                d['paths']['/y'] = {'put': op()}
                yield d
    elif kind in ('pair', 'triple'):
        i, deep = case[1], case[2]
        if kind == 'triple':
            sets = [(i, case[2], k) for k in ALL]
        else:
            # quick: each unordered pair in one order
            sets = [(i, j) if deep or (i + j) % 2 else (j, i) for j in ALL if deep or j >= i]
        for ps in sets:
            named = [(p, 'n%d' % k) for k, p in enumerate(ps)]
            # the place of each parameter: path level, first operation, second operation
            for places in itertools.product('p12', repeat=len(ps)):
                if kind == 'triple' and places[0] not in 'p1':
                    continue
                first = [x for x, w in zip(named, places) if w in 'p1']
                second = [x for x, w in zip(named, places) if w in 'p2']
                if not compatible(first) or not compatible(second):
                    continue
                for c in (range(len(CONSUMES)) if kind == 'pair' and deep is True else (0, 5)):
                    d = base()
                    item = {'post': op(), 'put': op()}
                    for (p, n), w in zip(named, places):
                        {'p': item, '1': item['post'], '2': item['put']}[w].setdefault('parameters', []).append(mk(p, n))
                    if CONSUMES[c] is not None:
                        item['put']['consumes'] = CONSUMES[c]
                    d['paths']['/x/{n0}'] = item
                    yield d
    elif kind == 'override':
        # a path level parameter, and one of the same name and place in one operation
        i = case[1]
        for j in range(NP):
            if PARAMS[i]['in'] != PARAMS[j]['in']:
                continue
            for extra in (None, 0, 16, 13):
                d = base()
                item = {'parameters': [mk(i, 'n')], 'post': op(parameters=[mk(j, 'm' if PARAMS[i]['in'] == 'body' else 'n')]), 'get': op()}
                if extra is not None:
                    item['parameters'].append(mk(extra, 'e'))
                    if not compatible([(i, 'n'), (extra, 'e')]):
                        continue
                d['paths']['/x'] = item
                yield d
    elif kind == 'resp':
        i = case[1]
        for dp, opp in itertools.product(range(len(PRODUCES)), repeat=2):
            for j in range(len(RESP)):
                d = base()
                if PRODUCES[dp] is not None:
                    d['produces'] = PRODUCES[dp]
                o = {'responses': {'200': copy.deepcopy(RESP[i]), 'default': copy.deepcopy(RESP[j])}}
                if PRODUCES[opp] is not None:
                    o['produces'] = PRODUCES[opp]
                d['paths'] = {'/x': {'get': o, 'head': {'responses': {'x/404': copy.deepcopy(RESP[j])}}}}
                yield d
    elif kind == 'fields':
        i, deep = case[1], case[2]
        for n in range(3 if deep else 2):
            for c in itertools.combinations(range(i + 1, len(FIELDS)), n):
                ks = [FIELDS[x][0] for x in (i, ) + c]
                if len(set(ks)) < len(ks):
                    continue
                for host in (True, False):
                    d = base()
                    if not host:
                        del d['host']
                    o = op(**dict(copy.deepcopy(FIELDS[x]) for x in (i, ) + c))
                    d['paths'] = {'/x': dict((m, copy.deepcopy(o) if k % 2 else op()) for k, m in enumerate(ref23.METHODS)), '/y/~': {'patch': o}}
                    yield d


def run(case, st):
    for d in documents(case):
        check(d, st)
    st.outcome(case[0])


def prune(d):
    """without the named components that nothing refers to"""
    for group in ('parameters', 'responses', 'definitions'):
        text = repr((d['paths'], d.get('parameters'), d.get('responses')))
        for k in list(d.get(group, {})):
            if '#/%s/%s\'' % (group, esc(k)) not in text:
                del d[group][k]
        if not d.get(group):
            d.pop(group, None)


def check(d, st):
    prune(d)
    st.state(d)
    st.trans()
    src = copy.deepcopy(d)
    try:
        app = MemApp({R: d}, R, '3.0.0')
    except Exception as e:
        raise Fail('migrating %s: %s(%s)' % (short(src, 3000), type(e).__name__, e))
    expect(same(d, src), 'the source document was modified')
    got = view(app.root.paths, ['map', 'PathItem'])
    expect_eq(sorted(got), sorted(src['paths']), 'paths')
    for path, item in src['paths'].items():
        want = ref23.path_item(item, src)
        g = got[path]
        form_refs(g, want, st)
        g = clean(ref23.eff_path_item(g))
        agree(g, want, '%s of the migration of %s' % (path, short(src, 4000)))
    st.trace()


def form_refs(g, want, st):
    """a form parameter given by reference: its property is recorded as defective when it is just that reference"""
    for m, o in want.items():
        refs = isinstance(o, dict) and o.get('requestBody', {}).pop('~refs', {})
        for (ct, name), r in (refs or {}).items():
            try:
                props = g[m]['requestBody']['content'][ct]['schema']['properties']
                p = props[name]
            except KeyError:
                continue
            if set(p) - {'nullable'} == {'$ref'}:
                st.finding('C08-form-ref', 'the form field %r of %s became the reference %s' % (name, m, p['$ref']))
                expect_eq(p['$ref'], r, 'reference of form field %r' % name)
                props[name] = copy.deepcopy(o['requestBody']['content'][ct]['schema']['properties'][name])


def clean(v):
    """without empty containers, except an explicitly empty security"""
    if isinstance(v, dict):
        return dict((k, clean(x)) for k, x in v.items() if k == 'security' or k == 'schema' or x not in ([], {}) or isinstance(x, bool))
    if isinstance(v, list):
        return [clean(x) for x in v]
    return v


def agree(got, want, what):
    want = anytype(clean(want), got)
    if not same(got, want):
        raise Fail('%s\n  expected %s\n  got      %s\n  at %s' % (what, short(want, 1500), short(got, 1500), first_diff(got, want)))


def anytype(want, got):
    """replace the media type '*' by the one chosen"""
    if isinstance(want, dict):
        out = {}
        for k, v in want.items():
            g = got.get(k) if isinstance(got, dict) else None
            if k == 'content' and isinstance(g, dict) and isinstance(v, dict) and '*' in v:
                rest = [x for x in g if 'schema' in g[x]]
                if len(rest) == 1:
                    v = dict(v)
                    star = v.pop('*')
                    v[rest[0]] = dict(star, **v.get(rest[0], {}))
            out[k] = anytype(v, g)
        return out
    if isinstance(want, list):
        return [anytype(v, got[i] if isinstance(got, list) and i < len(got) else None) for i, v in enumerate(want)]
    return want
