"""C19: comparison reports a difference exactly when there is one.

Explored: (1) every pair among a document and all its single edits (a value changed, a member removed, added
or renamed, a list shortened, reordered, an object replaced by a reference) for each kind of object tree,
2.0 and 3.0, thorough: also pairs of double edits; (2) every pair of plain containers of a bounded size.
The verdict and the place are judged on the raw documents.
"""
import copy
import itertools
import docs
import spec
from docs import MISSING, walk, tokens, pointer
from core import Fail, expect, expect_eq, same as eq_strict, short
from pyopenapi import utils
from pyopenapi.migration.versions.v2_0 import objects as v2
from pyopenapi.migration.versions.v3_0_0 import objects as v3

ID, LEVEL = 'C19', 'model_checking'
RULE = ('a state is a document (or plain container) of the bounded space; a transition is a comparison of two states, '
        'both ways; verdict and reported places are compared with equality of the raw documents')
BOUNDS = {'quick': 'all pairs of single edits of 10 small trees, every single edit of 2 full documents; all pairs of ~330 containers',
          'thorough': 'all pairs of single edits of 10 trees incl. the full operations; all pairs of ~1200 containers'}
ASSUMPTIONS = ['booleans and numbers are not mixed for one value (Python considers 1 == True), null members are not used',
               'explicit default values (collectionFormat csv, required []) are not distinguished from absent ones',
               'lists mixing scalars and containers are outside the domain of compare_container']

TREES = {
    's2': (v2.Schema, {'title': 't', 'required': ['a', 'b'], 'enum': [1, 'a', {'k': [1, 2]}], 'example': {'a': [1, {'z': 'q'}], 'b': 1.5},
                       'properties': {'a/b': {'type': 'string'}, 'n': {'maximum': 0}}, 'allOf': [{'title': 'x'}, {'type': 'y'}],
                       'additionalProperties': {'type': 'string'}, 'items': {'title': 'i'}}),
    's3': (v3.Schema, {'title': 't', 'required': ['a', 'b'], 'default': [[1], [2]], 'oneOf': [{'title': 'x'}, {'title': 'y'}],
                       'properties': {'a/b': {'type': 'string'}, '~': {'not': {'type': 'z'}}}, 'additionalProperties': {'type': 'string'},
                       'discriminator': {'propertyName': 'p', 'mapping': {'k': 'v', 'l': 'w'}}}),
    'o2': (v2.Operation, {'operationId': 'x', 'tags': ['t', 'u'], 'security': [{'k': ['a', 'b'], 'l': []}, {'m': []}],
                          'parameters': [{'name': 'n', 'in': 'query', 'type': 'string'}, {'$ref': '#/parameters/x'}],
                          'responses': {'200': {'description': 'd', 'headers': {'h': {'type': 'string'}}}, 'default': {'$ref': '#/r'}}}),
    'o3': (v3.Operation, {'operationId': 'x', 'tags': ['t', 'u'], 'security': [{'k': ['a', 'b'], 'l': []}],
                          'parameters': [{'name': 'n', 'in': 'query', 'schema': {'type': 'string'}}, {'$ref': '#/x'}],
                          'callbacks': {'c': {'u/1': {'get': {'summary': 's'}}}},
                          'responses': {'200': {'description': 'd', 'content': {'a/b': {'example': {'a': [1, 2]}}}}}}),
    'p2': (v2.PathItem, {'get': {'summary': 's', 'consumes': ['a', 'b']}, 'put': {'summary': 's'}, 'parameters': [{'name': 'a', 'in': 'query'}]}),
    'i3': (v3.Info, {'title': 't', 'version': 'v', 'contact': {'name': 'n', 'url': 'u'}, 'license': {'name': 'l'}}),
    'sec2': (v2.SecurityScheme, {'type': 'oauth2', 'scopes': {'a': 'x', 'b': 'y', 'c/d': 'z'}, 'flow': 'f'}),
    'srv': (v3.Server, {'url': 'u', 'variables': {'a': {'default': 'd', 'enum': ['d', 'e', 'f']}, 'b': {'default': 'd'}}}),
    'comp': (v3.Components, {'schemas': {'a': {'title': 'x'}, 'b': {'$ref': '#/a'}}, 'links': {'l': {'parameters': {'p': 'v', 'q': 'w'}}},
                             'requestBodies': {'r': {'content': {'a/b': {'encoding': {'e': {'explode': True}}}}}}}),
    'resp2': (v2.Response, {'description': 'd', 'examples': {'a/b': [1, 2, [3, 'x']]}, 'schema': {'type': 'x', 'additionalProperties': True},
                            'headers': {'h': {'items': {'items': {'enum': [1]}}}}}),
}
FULL = {'doc2': (v2.Swagger, docs.doc2()), 'doc3': (v3.OpenApi, docs.doc3())}
REFABLE = ('schema', 'items', 'not', 'additionalProperties', 'requestBody')
REFIN = ('allOf', 'oneOf', 'anyOf', 'properties', 'parameters', 'responses', 'headers', 'examples', 'links', 'callbacks', 'schemas',
         'requestBodies', 'securitySchemes')
REQUIRED = ('title', 'version', 'default', 'url', 'name', 'in', 'description', 'type', 'content', 'propertyName', 'scopes')


def edits(cls, doc):
    """every single edit that keeps the document loadable; yields (place, function) to apply at once"""
    names3 = cls.__module__.endswith('v3_0_0.objects')
    for toks, val in docs.nodes(doc):
        last = toks[-1] if toks else None
        parent = walk(doc, toks[:-1]) if toks else None
        raws = ('example', 'default', 'value', 'enum') + (() if names3 else ('examples', ))
        raw = any(t in raws and (i == 0 or toks[i - 1] not in ('responses', 'variables')) and 'variables' not in toks
                  for i, t in enumerate(toks))
        if isinstance(val, bool):
            yield (toks, lambda v: not v)
        elif isinstance(val, (int, float)):
            yield (toks, lambda v: v + 1)
        elif isinstance(val, str):
            yield (toks, lambda v: v + 'x')
            if val:
                yield (toks, lambda v: '')
            if raw:
                yield (toks, lambda v: 7)
                yield (toks, lambda v: {'k': v})
        elif isinstance(val, list):
            yield (toks, lambda v: v + [copy.deepcopy(v[0])] if v else ['x'])
            if len(val) > 1:
                yield (toks, lambda v: v[:-1])
                yield (toks, lambda v: v[::-1])
        elif isinstance(val, dict):
            gp = toks[-2] if len(toks) > 1 else None
            if '$ref' not in val and not raw and toks and (last in REFABLE if names3 else gp in ('responses', 'allOf', 'properties') or
                                                           last in ('schema', 'items') and 'headers' not in toks) or \
                    names3 and gp in REFIN and '$ref' not in val and not raw:
                yield (toks, lambda v: {'$ref': '#/other'})
            if raw:
                yield (toks, lambda v: dict(v, extra=3))
        if isinstance(parent, dict):
            if not (names3 and last in REQUIRED) and last != '$ref':
                yield (toks, lambda v: MISSING)
            gp = toks[-2] if len(toks) > 1 else None
            if gp in ('properties', 'responses', 'headers', 'scopes', 'variables', 'schemas', 'content', 'paths', 'definitions', 'mapping',
                      'links', 'requestBodies', 'examples', 'parameters') and isinstance(walk(doc, toks[:-1]), dict):
                yield (toks[:-1], lambda v: dict((k + '/2' if k == last else k, x) for k, x in v.items()))


VARIANTS = {}


def variants(name, n=1):
    if (name, n) not in VARIANTS:
        cls, doc = TREES.get(name) or FULL[name]
        out, seen = [doc], {docs_key(doc)}
        level = [doc]
        for _ in range(n):
            nxt = []
            for d in level:
                for toks, fn in edits(cls, d):
                    e = docs.edited(d, toks, fn)
                    k = docs_key(e)
                    if k in seen:
                        continue
                    seen.add(k)
                    try:
                        cls(copy.deepcopy(e), '#')
                    except Exception:       # not a document of this type (e.g. a container replaced by a reference)
                        continue
                    out.append(e)
                    nxt.append(e)
            level = nxt
        VARIANTS[(name, n)] = out
    return VARIANTS[(name, n)]


def docs_key(d):
    import json
    return json.dumps(d, sort_keys=True)


def cases(tier):
    deep = tier == 'thorough'
    for name in sorted(TREES):
        for i in range(len(variants(name))):
            yield ['tree', name, i]
    for name in sorted(FULL):
        for part in range(16):
            yield ['full', name, part]
    yield ['types']
    n = len(values(deep))
    for i in range(n):
        yield ['plain', deep, i]
    if deep:
        for name in ('i3', 'srv', 'sec2', 'p2', 's3', 'resp2'):
            for i in range(len(variants(name, 2))):
                yield ['tree2', name, i]


def run(case, st):
    kind = case[0]
    if kind == 'tree':
        pairs(st, case[1], 1, case[2])
    elif kind == 'tree2':
        pairs(st, case[1], 2, case[2])
    elif kind == 'full':
        cls, doc = FULL[case[1]]
        base = cls(copy.deepcopy(doc), '#')
        for i, (toks, fn) in enumerate(edits(cls, doc)):
            if i % 16 != case[2]:
                continue
            e = docs.edited(doc, toks, fn)
            try:
                o = cls(copy.deepcopy(e), '#')
            except Exception:
                continue
            st.state([case[1], e])
            judge(st, case[1], doc, base, e, o)
            judge(st, case[1], e, cls(copy.deepcopy(e), '#'), e, o)
    elif kind == 'types':
        for doc in ({}, {'title': 'x'}, {'description': 'd'}, {'name': 'n', 'type': 't', 'in': 'header', 'description': 'd'}):
            clss = [v2.Schema, v3.Schema, v2.Header, v2.Parameter, v2.Items, v2.Response, v2.PathItem, v3.PathItem, v2.Contact, v2.License]
            for a, b in itertools.product(clss, clss):
                x, y = a(dict(doc), '#'), b(dict(doc), '#')
                r = x.compare(y)
                st.trans()
                expect_eq(bool(r[0]), a is b, 'comparing a %s and a %s with equal content %r' % (a, b, doc))
        for other in (None, 'x', 1, {}, [], {'title': 'x'}):
            expect(not v2.Schema({'title': 'x'}, '#').compare(other)[0], 'an object is never equal to a plain value %r', other)
        st.state('types')
        st.trace()
    else:
        run_plain(st, values(case[1]), case[2])


def pairs(st, name, n, i):
    cls = TREES[name][0]
    vs = variants(name, n)
    a = vs[i]
    oa = cls(copy.deepcopy(a), '#')
    st.state([name, a])
    rng = range(len(vs)) if n == 1 else range(i % 7, len(vs), 7)
    for j in itertools.chain([i], rng):
        judge(st, name, a, oa, vs[j], obj(name, n, cls, j, vs[j]))


OBJS = {}


def obj(name, n, cls, j, doc):
    if (name, n, j) not in OBJS:
        OBJS[(name, n, j)] = cls(copy.deepcopy(doc), '#')
    return OBJS[(name, n, j)]


def judge(st, name, a, oa, b, ob):
    want = eq_strict(a, b)
    for x, y, ox, oy in ((a, b, oa, ob), (b, a, ob, oa)):
        st.trans()
        what = '%s.compare\n  of  %s\n  and %s' % (name, short(x, 900), short(y, 900))
        cls = (TREES.get(name) or FULL[name])[0]
        try:
            r = ox.compare(oy)
        except IndexError as e:
            if any(c == 'crash' for c in defects(x, y, cls)):
                st.finding('C19-plain-list', '%s raises %r' % (what, e))
                continue
            raise
        if bool(r[0]) and not want:
            cs = list(defects(x, y, cls))
            if all(c in ('first', 'short') for c in cs):
                st.finding('C19-plain-list' if 'short' in cs else 'C19-first-only', '%s: says equal' % what)
                continue
        expect_eq(bool(r[0]), want, what)
        if not want and not r[1] and 'place' in list(defects(x, y, cls)):
            st.finding('C19-place', '%s: reported place is empty' % what)
            continue
        if not want:
            loc = r[1]
            vx, vy = walk(x, tokens(loc)), walk(y, tokens(loc))
            expect(differs_here(vx, vy), '%s: reported place %r is not where they differ: %s / %s', what, loc, short(vx), short(vy))
            st.outcome([name, loc])
    st.trace()


def defects(x, y, cls):
    """for every difference between two documents, how the recorded defects of compare treat it:
    'first'  in a container of strings, behind its first element: not looked at
    'short'  the plain list of the other one goes on: not looked at; 'crash' it is shorter: IndexError
    'place'  different length or type of containers or objects: noticed, but reported at ''
    'seen'   anything else"""
    version = '3.0.0' if cls.__module__.endswith('v3_0_0.objects') else '2.0'
    return shaped(x, y, cls.__name__, version)


def shaped(x, y, shape, version):
    if eq_strict(x, y):
        return
    tab = spec.TABLES[version]
    if isinstance(shape, list) and shape[0] == 'bool':
        if isinstance(x, bool) or isinstance(y, bool):
            yield 'seen'
            return
        shape = shape[1]
    if isinstance(shape, list):
        kind, sub = shape
        plain = sub in ('str', 'any')
        if kind == 'list':
            if len(x) != len(y):
                yield 'place'
                return
            for i, (p, q) in enumerate(zip(x, y)):
                for c in shaped(p, q, sub, version):
                    yield 'first' if plain and i else c
        else:
            if set(x) != set(y):
                yield 'seen'
            for i, k in enumerate(x):
                if k in y:
                    for c in shaped(x[k], y[k], sub, version):
                        yield 'first' if plain and i else c
        return
    if shape in ('any', 'str'):
        for c in plain_pair(x, y):
            yield c
        return
    a, b = spec.kind_of(x, shape), spec.kind_of(y, shape)
    if a != b:
        yield 'place'
    elif tab[a] is None:
        for c in shaped(x, y, ['map', 'PathItem'], version):
            yield c
    else:
        for k in tab[a]:
            if (k in x) != (k in y):
                if a == 'Schema' and k == 'required' and version == '2.0':      # its default value is []
                    for c in plain_pair(x.get(k, []), y.get(k, [])):
                        yield c
                else:
                    yield 'seen'
            elif k in x:
                for c in shaped(x[k], y[k], tab[a][k], version):
                    yield c


def plain_pair(x, y):
    if isinstance(x, list) and isinstance(y, list):
        for p, q in zip(x, y):
            for c in plain_pair(p, q):
                yield c
        if len(x) != len(y):
            yield 'short' if len(x) < len(y) else 'crash'
    elif isinstance(x, dict) and isinstance(y, dict) and set(x) == set(y):
        for k in x:
            for c in plain_pair(x[k], y[k]):
                yield c
    elif not eq_strict(x, y):
        yield 'seen'


def differs_here(a, b):
    if eq_strict(a, b):
        return False
    if isinstance(a, dict) and isinstance(b, dict):
        return ('$ref' in a) != ('$ref' in b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) != len(b)
    return True


# ---------------------------------------------------------------------- plain containers

SCAL = [1, 2, 'a', '1', None, False, 1.5, '']


CHOICES = [([], []), (['x'], []), (['a', 'zz'], []), ([], ['a']), (['x'], ['a', 'x', 'b'])]


def values(deep):
    if deep in VARIANTS:
        return VARIANTS[deep]
    l0 = SCAL
    l1 = [[]] + [[x] for x in l0] + [list(p) for p in itertools.product(l0[:6], repeat=2)] + \
        [list(p) for p in itertools.product([1, 2, 'a'], repeat=3)] + [{}] + [{k: x} for k in ('a', 'a/b') for x in l0] + \
        [{'a': x, 'b': y} for x in l0[:4] for y in l0[:4]] + [{'x': x, 'a': y} for x in l0[:3] for y in l0[:3]]
    inner = [1, 2, [], [1, 2], [2, 1], [1, 2, 2], [1, 1, 2], {}, {'a': 1}, {'a': 2}, {'x': 1}, {'x': 2}, {'a': 1, 'x': 2}, {'a': [1, 2]}, {'a': [2, 1]},
             {'a~': {'x': 1}}]
    if not deep:
        inner = inner[1:5] + inner[7:10] + inner[11:14]
    l2 = [{'a': v} for v in inner] + [{'a': v, 'b': w} for v in inner for w in inner] + \
        [[v, w] for v in inner for w in inner if isinstance(v, (dict, list)) == isinstance(w, (dict, list))] + [[v] for v in inner] + \
        [{'x': v, 'b': w} for v in inner[:6] for w in inner[:6]]
    tiny = [{'a': 1}, {'a': 2}, [1], [2]]
    l2 += [{'a': [v]} for v in tiny] + [{'a': [v, w]} for v in tiny for w in tiny if type(v) == type(w)] + [[{'x': [v]}, {'a': [v]}] for v in tiny]
    if deep:
        l2 += [[v, w, u] for v in inner[4:9] for w in inner[4:9] for u in inner[4:9]] + \
            [{'a': {'b': v, 'x': w}, 'c': [{'a': w}]} for v in inner for w in inner]
    out, seen = [], set()
    for v in list(l0) + l1 + l2:
        k = docs_key(v)
        if k not in seen:
            seen.add(k)
            out.append(v)
    VARIANTS[deep] = out
    return out


def scalars(lst):
    return all(not isinstance(x, (dict, list)) for x in lst)


def key(x):
    return (type(x).__name__, repr(x))


def diff(a, b, excl, at, incl=()):
    """list of places (exact, tokens) where a and b differ"""
    if isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in sorted(set(a) | set(b)):
            if k in excl or incl and k not in incl:
                continue
            if k not in a or k not in b:
                out.append((True, at + [k]))
            else:
                out += diff(a[k], b[k], excl, at + [k], incl)
        return out
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return [(True, at)]
        if scalars(a) and scalars(b):
            return [] if sorted(map(key, a)) == sorted(map(key, b)) else [(False, at)]
        if any(isinstance(x, (dict, list)) != isinstance(y, (dict, list)) for x, y in itertools.product(a + b, a + b)):
            return [(False, at)]       # scalars against containers: the place inside is not specified
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            out += diff(x, y, excl, at + [str(i)], incl)
        return out
    return [] if eq_strict(a, b) else [(True, at)]


def run_plain(st, vals, i):
    a = vals[i]
    st.state(['plain', a])
    for b in vals:
        for excl, incl in CHOICES:
            if (excl or incl) and not (isinstance(a, (dict, list)) and isinstance(b, (dict, list))):
                continue
            x, y = copy.deepcopy(a), copy.deepcopy(b)
            kw = {'exclude': list(excl)} if excl else {}
            if incl:
                kw['include'] = list(incl)
            got = utils.compare_container(x, y, **kw)
            st.trans()
            want = diff(a, b, excl, [], incl)
            what = 'compare_container(%s, %s, exclude=%r, include=%r)' % (short(a), short(b), excl, incl)
            expect(eq_strict(x, a) and eq_strict(y, b), '%s modified its arguments', what)
            expect_eq(not got, not want, what + ' = %r, differing places %r: equal' % (got, want))
            left = [tokens('/' + g[0]) if g[0] else [] for g in got]
            for exact, at in want:
                hits = [g for g in left if (g == at if exact else g[:len(at)] == at)]
                expect(hits, '%s = %r does not list the difference at %r', what, got, at)
                for h in (hits[:1] if exact else hits):
                    left.remove(h)
            expect(not left, '%s = %r lists places that do not differ or twice: %r', what, got, left)
            st.outcome([len(want)])
    acc = [('z', 0, 1)]
    r = utils.compare_container(a, {'q': 1}, acc, 'base')
    expect(r is acc and acc[0] == ('z', 0, 1), 'results are appended to the list passed in')
    st.trace()
