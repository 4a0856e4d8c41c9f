"""C05: what a reference resolves to never depends on what was resolved before.

Explored: all sequences of up to k resolutions on one application, over a pool of references (into the root document, fragments,
other full documents, nested in one another, with names that are string prefixes of others, missing targets) x target version,
from several starting points; the same over the parts of 2.0 objects that are elsewhere in 3.0 (parameters of operations, bodies, schemas of bodies and responses); all small reference graphs between a document and fragments, in any order of migrating and resolving; documents whose URLs differ in one
part only (query, case, scheme, port, extension, ...). After every step the result is compared with the source at its address (including everything its
references carry), repeating a step has to give the same object, all earlier results are compared again at the end, and no document
is fetched twice.
"""
import copy
import itertools
import docs
from core import Fail, expect, expect_eq, short
from docs import pointer
from env import MemApp
from bisim import Bisim
from graph import Graph, real
from props import c03, c24
from pyopenapi.migration.versions.v2_0 import objects as v2
from pyopenapi.migration.versions.v3_0_0 import objects as v3

ID, LEVEL = 'C05', 'model_checking'
RULE = ('a state is the sequence of resolutions made so far on one application (replayed from the start), a transition is one more '
        'resolution; sequences are enumerated exhaustively up to the bound')
BOUNDS = {'quick': 'all sequences of 2 over a pool of up to 53 resolutions from 2 starting points, of 3 over up to 10 nested and colliding resolutions from 3 others; all reference graphs over a schema of the document and 2 fragments (343), with each of 6 resolutions first, or in all orders; all sequences of 2 into the root document, with and without its URL, when that is not loaded yet; all ordered pairs of 16 similar URLs and of 41 parts of 2.0 objects with those of the same document',
          'thorough': 'all sequences of 2 over the whole pool of up to 67 resolutions, of 3 over up to 53 from 3 starting points, of 4 over up to 10 resolutions, from 4 starting points; graphs with all orders of 2 of 6 resolutions; graphs over 4 schemas (6561); all ordered triples of 16 similar URLs (2.0); all ordered pairs of 81 resolutions of parts of 2.0 objects, triples of 17'}
ASSUMPTIONS = ['what a 1.2 listing becomes is resolved by the pointers of the version it was migrated to or of 2.0 (its 1.2 form has no such pointers); a security definition and an operation only together with its document', 'a fragment is resolved with the object type that stands there', 'sequences start after the root document or another full document is loaded (its version is needed to resolve)',
               'a body or a response resolved by itself has the media types it has by itself, and gets those of its operation or document when that is converted',
               'members of objects that are shaped differently in 3.0 are not resolved across versions']

MOVED = ('PathItem', 'Parameter', 'Response', 'Operation')
R, B, C = 'http://h/d/root.json', 'http://h/d/b.json', 'http://h/e/c.json'


def sch(mark, to):
    return {'title': mark, 'type': 'object', 'properties': {'p/q': {'title': mark + 'p', 'properties': {'z': {'title': mark + 'z'}, 'r': {'$ref': to}}}, 'p': {'title': mark + 'x'}}}


def group(d, version):
    return d.setdefault('definitions', {}) if version == '2.0' else d.setdefault('components', {}).setdefault('schemas', {})


def make(version):
    two = version == '2.0'
    s = '#/definitions/' if two else '#/components/schemas/'
    head = {'swagger': '2.0'} if two else {'openapi': '3.0.0'}
    ds = {R: dict(head, info={'title': 'R', 'version': '1'}, paths={}), B: {'x': {'i/1': {'summary': 'bi'} if not two else {}}}, C: dict(head, info={'title': 'C', 'version': '2'}, paths={})}
    for u, m in ((R, 'r'), (B, 'b'), (C, 'c')):
        g = group(ds[u], version)
        g['A'] = sch(m + 'A', {R: 'b.json', B: '/e/c.json', C: '../d/b.json'}[u] + s + 'Ab')
        g['Ab'] = sch(m + 'Ab', s + 'A')
        g['A/b'] = {'title': m + 'A/b', 'allOf': [{'$ref': s + 'A/properties/p~1q'}, {'title': m + 'in'}]}
        ref = {'$ref': s + 'A~1b'}
        op = {'operationId': m + 'get', 'responses': {'200': {'description': m, 'schema': ref} if two else {'description': m, 'content': {'a/b': {'schema': ref}}}}}
        if two:
            op['produces'] = ['a/b']
        item = {'get': op, 'put': dict(copy.deepcopy(op), operationId=m + 'put')}
        (ds[u]['paths'] if u != B else ds[u]['x']).update({'/x': item, '/x/y': {'post': dict(copy.deepcopy(op), operationId=m + 'post')}})
        if two:
            ds[u]['parameters'] = {'H': {'name': m + 'H', 'in': 'header', 'type': 'string'}, 'H/': {'name': m + 'B', 'in': 'body', 'schema': dict(ref)}}
            ds[u]['responses'] = {'Q': {'description': m + 'Q', 'schema': dict(ref)}}
        else:
            ds[u]['components'].update(parameters={'H': {'name': m + 'H', 'in': 'header', 'schema': {'type': 'string'}}}, requestBodies={'H/': {'description': m + 'B', 'content': {'a/b': {'schema': dict(ref)}}}},
                                       responses={'Q': {'description': m + 'Q', 'content': {'a/b': {'schema': dict(ref)}}}})
    return ds


def pool(version):
    """(url, tokens, type, across): what can be resolved; across: also to the next version"""
    two = version == '2.0'
    c = ['definitions'] if two else ['components', 'schemas']
    out = []
    for u in (R, B, C):
        p = ['paths'] if u != B else ['x']
        out += [(u, c + ['A'], 'Schema', True), (u, c + ['Ab'], 'Schema', True), (u, c + ['A/b'], 'Schema', True), (u, c + ['A', 'properties', 'p/q'], 'Schema', True),
                (u, c + ['A', 'properties', 'p/q', 'properties', 'z'], 'Schema', True),
                (u, p + ['/x'], 'PathItem', True), (u, p + ['/x/y'], 'PathItem', True)]
        k = [] if two else ['components']
        out += [(u, k + ['parameters', 'H'], 'Parameter', True), (u, k + ['responses', 'Q'], 'Response', True)]
        if two:
            out += [(u, ['parameters', 'H/'], 'Parameter', True)]
        else:
            out += [(u, k + ['requestBodies', 'H/'], 'RequestBody', True)]
    out += [(C, [], 'Swagger' if two else 'OpenApi', True), (R, [], 'Swagger' if two else 'OpenApi', True)]
    out += [(B, c + ['zz'], 'Schema', False), (R, c + ['A', 'properties', 'zz'], 'Schema', False), ('http://h/none.json', c + ['A'], 'Schema', False)]
    return out


STARTS = {'2.0': '2.0', '3.0.0': '3.0.0', '2.0>3.0.0': '2.0', 'raw': '2.0', 'C 2.0': '2.0', 'C 3.0.0': '3.0.0'}      # C: the root document is not loaded, but that one


def actions(start):
    version = STARTS[start]
    acts = []
    for i, (u, t, kind, across) in enumerate(pool(version)):
        for to in ['2.0', '3.0.0'] if version == '2.0' and start != 'raw' else [version]:
            if to != version and not across:
                continue
            acts.append((i, to))
    return acts


def few(start):
    """a subset that is nested, prefixing and spread over documents"""
    version = STARTS[start]
    acts = actions(start)
    c = ('definitions', ) if version == '2.0' else ('components', 'schemas')
    want = [(B, c + ('A', )), (B, c + ('A', 'properties', 'p/q')), (B, c + ('A', 'properties', 'p/q', 'properties', 'z')), (B, c + ('Ab', )), (C, c + ('A', )), (C, c + ('A', 'properties', 'p/q')), (C, ()),
            (C, ('paths', '/x')), (B, c + ('zz', ))]
    ps = pool(version)
    out = [a for a in acts if (ps[a[0]][0], tuple(ps[a[0]][1])) in want]
    if len(out) > 9:
        out = [a for a in out if a[1] == '3.0.0' or ps[a[0]][1][-1:] in (['A'], ['p/q'])]
    return out[:10]


def own(start):
    ps = pool(STARTS[start])
    return [a for a in actions(start) if ps[a[0]][0] == R]


def most(start):
    ps = pool(STARTS[start])
    return [a for a in actions(start) if ps[a[0]][0] != C or not ps[a[0]][1] or 'A' in ps[a[0]][1]]


def cases(tier):
    deep = tier == 'thorough'
    for version in ('2.0', '3.0.0'):
        for h in itertools.product(range(-1, 6), repeat=2):
            yield ['graph', version, 1, 3, list(h), 2 if deep else 1]
        if deep:
            for h in itertools.product(range(-1, 8), repeat=2):
                yield ['graph', version, 2, 4, list(h), 1]
    for start in ('2.0', '3.0.0'):
        for i in range(len(LISTED)):
            yield ['listing', start, i, 3 if deep else 2]
    for start in ('2.0', '3.0.0', '2.0>3.0.0'):
        for i in range(len(NEAR)):
            yield ['near', start, i, 3 if deep and start == '2.0' else 2]
    for start in ('2.0', '2.0>3.0.0'):
        for i in range(len(inner_acts(start))):
            yield ['inner', start, i, 2, 'all' if deep else 'same']
            if deep:
                yield ['inner', start, i, 3, 'few']
    for s in ('C 2.0', 'C 3.0.0'):
        for i in range(len(own(s))):
            yield [s, 'own', [i], 2 if deep else 1]
    for s in sorted(STARTS):
        if s[0] == 'C':
            continue
        n = len(actions(s))
        for i in range(n):
            if deep:
                yield [s, 'all', [i], 1]
        for i in range(len(most(s)) if deep and s != '2.0' else 0):
            for j in range(len(most(s))):
                yield [s, 'most', [i, j], 1]
        if not deep and s not in ('2.0', 'raw'):
            for i in range(len(most(s))):
                yield [s, 'most', [i], 1]
        f = few(s)
        for i in range(len(f)):
            if not deep and s == '2.0>3.0.0':
                yield [s, 'few', [i], 1]
                continue
            for j in range(len(f)):
                yield [s, 'few', [i, j], 2] if deep else [s, 'few' if s == 'raw' else 'fewer', [i, j], 1]


# ------------------------------------------------------------------ all reference graphs, in any order

def run_graph(case, st):
    _, version, n, k, head, first = case
    two = version == '2.0'
    for tail in itertools.product(c24.choices(k), repeat=k - len(head)):
        edges = [None if i < 0 else c24.choices(k)[1:][i] for i in head] + list(tail)
        ds, name = c24.graph(version, edges, n)
        acts = [(i, to) for to in (('2.0', '3.0.0') if two else ('3.0.0', )) for i in [None] + list(range(n, k))]

        def perform(order):
            app = MemApp(ds, R)
            out = {}
            for i, to in order:
                st.trans()
                if i is None:
                    out[i, to] = app.migrate_obj(app.raw, R, to)
                else:
                    cls = v2.Schema if two else v3.Reference if edges[i] and edges[i][0] else v3.Schema
                    out[i, to] = real(app.resolve_obj(name(i), version, parser=cls, to_spec_version=to)[0])
            out[None] = app
            return out
        for m in (first, ) if two else (len(acts), ):
            want = None
            for head_ in [()] + list(itertools.permutations(acts, m)):
                order = list(head_) + [a for a in acts if a not in head_]
                if not st.state([version, n, edges, order]):
                    continue
                try:
                    got = perform(order)
                    want = want or got
                    for a in acts:
                        Bisim(text=False).check(want[a], got[a])
                        expect(a[0] is None or real(got[None].resolve_obj(name(a[0]), version, to_spec_version=a[1])[0]) is got[a], 'resolving %s again gives another object', a)
                except Fail as e:
                    raise Fail('%s, in the order %s instead of %s: %s' % (short(ds, 1500), order, acts, e))
                except Exception as e:
                    raise Fail('%s, in the order %s: %s(%s)' % (short(ds, 1500), order, type(e).__name__, e))
        st.trace()


# ------------------------------------------------------------------ what a 1.2 listing was migrated to

LISTED = [(t, v, to) for t in (['definitions', 'pet!##!M'], ['definitions', 'pet!##!M', 'properties', 'a/b'], ['definitions', 'st!##!N'], ['paths', '/api/pet/{id}'],
                               ['paths', '/api/pet/{id}', 'get'], ['securityDefinitions', 'o'], [])
          for v, to in (('2.0', '2.0'), ('2.0', '3.0.0'), ('3.0.0', '3.0.0'))]
MOVES = {'definitions': ['components', 'schemas'], 'securityDefinitions': ['components', 'securitySchemes']}


def run_listing(case, st):
    _, start, first, n = case
    lst, apis = c03.listing()
    ds = dict([(R, lst)] + [('http://h/d/' + k, v) for k, v in apis.items()])
    acts = [a for a in range(len(LISTED)) if start == '3.0.0' or LISTED[a][1] == '2.0' and (LISTED[a][2] == '2.0' or LISTED[a][0][:1] != ['securityDefinitions'] and LISTED[a][0][-1:] != ['get'])]
    if first not in acts:
        return
    whole = {}
    for rest in itertools.product(acts, repeat=n - 1):
        seq = (first, ) + rest
        st.state([start, seq])
        app = MemApp(copy.deepcopy(ds), R, start)
        results, what = {}, ''
        try:
            for a in seq:
                toks, v, to = LISTED[a]
                st.trans()
                at = toks if v == '2.0' else MOVES.get(toks[0], toks[:1]) + toks[1:] if toks else []
                what = '%s of %s to %s' % (pointer(at), v, to)
                got = real(app.resolve_obj(R + pointer(at), v, to_spec_version=to)[0])
                expect(results.setdefault((a, to), got) is got, 'another object than before')
                if to not in whole:
                    o = MemApp(copy.deepcopy(ds), R, to)
                    whole[to] = o, o.root
                new = toks if to == '2.0' else MOVES.get(toks[0], toks[:1]) + toks[1:] if toks else []
                if to == start:
                    expect(got is real(app.root.resolve(list(new)) if new else app.root), 'not the object of the migrated document')
                Bisim(text=False).check(whole[to][1].resolve(list(new)) if new else whole[to][1], got)
            expect(len(app.log) == len(set(app.log)), 'a document was fetched twice: %s', app.log)
        except Fail as e:
            raise Fail('1.2 listing migrated to %s, then resolving %s\n  %s: %s' % (start, [LISTED[a] for a in seq], what, e))
        except Exception as e:
            raise Fail('1.2 listing migrated to %s, then resolving %s\n  %s: %s(%s)' % (start, [LISTED[a] for a in seq], what, type(e).__name__, e))
        st.trace()
    st.outcome('listing')


# ------------------------------------------------------------------ documents whose URLs are nearly the same

NEAR = ['http://h/d/f', 'http://h/d/f?n=1', 'http://h/d/f?n=2', 'http://h/d/f?n=1&m=1', 'http://h/d/f/', 'http://h/d/F', 'https://h/d/f', 'http://h:81/d/f', 'http://h2/d/f', 'http://h/f', 'http://h/d/f.json', 'http://h/d/f.yaml',
        'http://h/d/f%2Fx', 'http://h/d/f/x', 'http://u@h/d/f', 'http://h/d/f;p=1']


def run_near(case, st):
    _, start, i, n = case
    version = STARTS[start]
    two = version == '2.0'
    to = '3.0.0' if '>' in start else version
    toks = ['definitions', 'A'] if two else ['components', 'schemas', 'A']
    head = {'swagger': '2.0'} if two else {'openapi': '3.0.0'}

    def doc(url, whole):
        d = dict(head, info={'title': url, 'version': '1'}, paths={}) if whole else {}
        group(d, version)['A'] = {'title': url, 'properties': {'x': {'$ref': pointer(['definitions', 'B'] if two else ['components', 'schemas', 'B'])}}}
        group(d, version)['B'] = {'title': url + ' B'}
        return d
    for whole in (False, True):
        for rest in itertools.permutations([u for u in NEAR if u != NEAR[i]], n - 1):
            seq = (NEAR[i], ) + rest
            if not st.state([start, whole, seq]):
                continue
            for attached in (False, True):
                ds = dict((u, doc(u, whole)) for u in seq)
                ds[R] = doc(R, True)
                try:
                    if attached:
                        group(ds[R], version).update(('n%d' % k, {'$ref': u + pointer(toks)}) for k, u in enumerate(seq))
                        app = MemApp(ds, R, to)
                        gs = app.root.components.schemas if to == '3.0.0' else app.root.definitions
                        got = [gs['n%d' % k].get_attrs('migration').ref_obj for k in range(len(seq))]
                    else:
                        app = MemApp(ds, R)
                        got = []
                        for u in seq:
                            st.trans()
                            if whole:
                                app.migrate_obj(app.load_obj(u), u, to)
                            got.append(app.resolve_obj(u + pointer(toks), version, parser=(v2 if two else v3).Schema, to_spec_version=to)[0])
                    for u, o in list(zip(seq, got)):
                        expect_eq(o.title, u, 'what is found at ' + u)
                        expect_eq(o.properties['x'].get_attrs('migration').ref_obj.title, u + ' B', 'what the reference there carries')
                        expect(real(app.resolve_obj(u + pointer(toks), version, parser=(v2 if two else v3).Schema, to_spec_version=to)[0]) is real(o), 'another object than before')
                    expect_eq(sorted(app.log), sorted(set(app.log)), 'documents fetched')
                except Exception as e:
                    raise Fail('%s, %s documents %s, %s: %s(%s)' % (start, 'full' if whole else 'parts of', list(seq), 'by references' if attached else 'one after another', type(e).__name__, e))
        st.trace()
    st.outcome('near')


# ------------------------------------------------------------------ parts of 2.0 objects that are elsewhere in 3.0

def inner_docs():
    def deep(mark):
        return {'title': mark, 'properties': {'p/q': {'title': mark + 'p', 'allOf': [{'$ref': '#/definitions/D'}]}}}

    def query(mark):
        return {'name': mark, 'in': 'query', 'type': 'string'}

    def doc(m, other):
        return {
            'definitions': {'D': {'title': m + 'D', 'properties': {'x': {'$ref': '#/paths/~1p/post/responses/200/schema'}, 'y': {'$ref': '#/paths/~1p/post/parameters/1/schema'}}},
                            'E': {'$ref': other + '#/responses/Q/schema/properties/p~1q'}, 'F': {'title': m + 'F', 'items': {'$ref': other + '#/parameters/H/schema'}}},
            'paths': {'/p': {'parameters': [query(m + 'q0')], 'post': {'operationId': m + 'post', 'consumes': ['a/b', 'c'], 'produces': ['d'], 'parameters': [
                query(m + 'q1'), {'name': 'b', 'in': 'body', 'description': m + 'body', 'schema': deep(m + 'bs')}, query(m + 'q2'), query(m + 'q4'), {'$ref': '#/paths/~1p/get/parameters/0'}],
                'responses': {'200': {'description': m + 'resp', 'schema': deep(m + 'rs')}}},
                'get': {'operationId': m + 'get', 'parameters': [query(m + 'q3')], 'responses': {'200': {'description': m + '2'}}}}},
            'responses': {'Q': {'description': m + 'Q', 'schema': deep(m + 'qs')}},
            'parameters': {'H': {'name': 'h', 'in': 'body', 'description': m + 'H', 'schema': deep(m + 'hs')}}}
    return {R: dict(doc('r', 'b.json'), swagger='2.0', info={'title': 'R', 'version': '1'}), B: doc('b', 'root.json')}


POST = ['paths', '/p', 'post']
INNER = [  # 2.0 pointer, type, member with the marker, marker
    (['paths', '/p'], 'PathItem', None, None), (POST + ['parameters', '0'], 'Parameter', 'name', 'q1'), (POST + ['parameters', '1'], 'Parameter', 'description', 'body'),
    (POST + ['parameters', '1', 'schema'], 'Schema', 'title', 'bs'), (POST + ['parameters', '1', 'schema', 'properties', 'p/q'], 'Schema', 'title', 'bsp'),
    (POST + ['parameters', '2'], 'Parameter', 'name', 'q2'), (POST + ['responses', '200'], 'Response', 'description', 'resp'), (POST + ['responses', '200', 'schema'], 'Schema', 'title', 'rs'),
    (POST + ['responses', '200', 'schema', 'properties', 'p/q'], 'Schema', 'title', 'rsp'), (['paths', '/p', 'get', 'parameters', '0'], 'Parameter', 'name', 'q3'),
    (['paths', '/p', 'parameters', '0'], 'Parameter', 'name', 'q0'), (['responses', 'Q'], 'Response', 'description', 'Q'), (['responses', 'Q', 'schema'], 'Schema', 'title', 'qs'),
    (['responses', 'Q', 'schema', 'properties', 'p/q'], 'Schema', 'title', 'qsp'), (['parameters', 'H'], 'Parameter', 'description', 'H'), (['parameters', 'H', 'schema'], 'Schema', 'title', 'hs'),
    (['parameters', 'H', 'schema', 'properties', 'p/q'], 'Schema', 'title', 'hsp'), (['definitions', 'D'], 'Schema', 'title', 'D'), (['definitions', 'F'], 'Schema', 'title', 'F'),
    (POST + ['parameters', '3'], 'Parameter', 'name', 'q4')]
MEDIA = (0, 2, 6, 11, 14)       # those with media types
INNER_FEW = (None, 0, 2, 3, 5, 6, 7, 8, 19)
ALONE = {}


def inner_acts(start):
    return [(u, i, to) for u in (R, B) for i in range(len(INNER)) for to in ('2.0', '3.0.0')] + [(R, None, '3.0.0')]


def inner_step(app, act):
    u, i, to = act
    if i is None:
        return app.migrate_obj(app.load_obj(u), u, to)
    toks, kind = INNER[i][:2]
    return real(app.resolve_obj(u + pointer(toks), '2.0', parser=getattr(v2, kind), to_spec_version=to)[0])


def inner_alone(start, act):
    if (start, act) not in ALONE:
        app = MemApp(inner_docs(), R, start.split('>')[-1])
        ALONE[start, act] = app, inner_step(app, act)
    return ALONE[start, act][1]


def context(start, seq, act):
    """a body or a response has the media types of what encloses it, once that is converted: it is another object then"""
    if act[2] != '3.0.0' or act[1] is None or act[0] == R and '>' in start:
        return False
    toks = INNER[act[1]][0]
    made = [[] if a[1] is None else INNER[a[1]][0] for a in seq if a[0] == act[0] and a[2] == '3.0.0' and (a[1] is None or a[1] in MEDIA)]
    inside = [m for m in made if toks[:len(m)] == m]
    return act[1] in MEDIA and any(m != toks for m in inside) or len(set(map(len, inside))) > 1


def run_inner(case, st):
    _, start, first, n, which = case
    acts = inner_acts(start)
    more = [a for a in acts if which == 'all' or a[2] == '3.0.0' and (a[0] == acts[first][0] if which == 'same' else a[1] in INNER_FEW)]
    if which == 'few' and acts[first] not in more:
        return
    for rest in itertools.product(more, repeat=n - 1):
        seq = (acts[first], ) + rest
        st.state([start, seq])
        app = MemApp(inner_docs(), R, start.split('>')[-1])
        got = {}
        try:
            for act in seq + seq[:1]:
                st.trans()
                o = inner_step(app, act)
                if not context(start, seq, act):
                    expect(got.setdefault(act, o) is o, 'resolving %s again gives another object', act)
                got[act] = o
            for act, o in got.items():
                u, i, to = act
                if i is not None and INNER[i][2]:
                    member, mark = INNER[i][2:]
                    expect_eq(getattr(o, member), {R: 'r', B: 'b'}[u] + mark, 'what %s leads to' % (act, ))
                if not context(start, seq, act) or INNER[i][1] == 'Schema':
                    Bisim(text=False).check(inner_alone(start, act), o)
            expect(len(app.log) == len(set(app.log)), 'a document was fetched twice: %s', app.log)
        except Fail as e:
            raise Fail('2.0 document%s, then resolving %s\n  %s' % (' migrated to 3.0.0' if '>' in start else '', [(u, None if i is None else pointer(INNER[i][0]), to) for u, i, to in seq], e))
        except Exception as e:
            raise Fail('2.0 document%s, then resolving %s\n  %s(%s)' % (' migrated to 3.0.0' if '>' in start else '', [(u, None if i is None else pointer(INNER[i][0]), to) for u, i, to in seq], type(e).__name__, e))
        st.trace()
    st.outcome('inner')


def run(case, st):
    if case[0] == 'inner':
        run_inner(case, st)
        return
    if case[0] == 'graph':
        run_graph(case, st)
        return
    if case[0] == 'near':
        run_near(case, st)
        return
    if case[0] == 'listing':
        run_listing(case, st)
        return
    start, which, prefix, more = case[:4]
    acts = {'all': actions, 'own': own, 'most': most, 'few': few, 'fewer': lambda s: few(s)[:7]}[which](start)
    if max(prefix) >= len(acts):
        return
    for rest in itertools.product(range(len(acts)), repeat=more):
        seq = [acts[i] for i in prefix + list(rest)]
        sequence(start, seq, st)
    st.outcome(start)


def sequence(start, seq, st):
    version = STARTS[start]
    ds = make(version)
    # every other one gets its documents from elsewhere
    hook = (lambda u: 'mirror:' + u) if seq[0][0] % 2 else None
    at = dict((hook(u) if hook else u, copy.deepcopy(d)) for u, d in ds.items())
    app = MemApp(at, R, None if start == 'raw' else start.split('>')[-1], hook=hook, load=start[0] != 'C')
    if start[0] == 'C':
        app.migrate_obj(app.load_obj(C), C, version)
    app.raw = app.root = None       # nobody else owns them
    ps = pool(version)
    results, where = {}, ''
    try:
        for k, (i, to) in enumerate(seq + seq[:1]):
            url, toks, kind, _ = ps[i]
            jref = url + pointer(toks)
            where = 'step %d, %s to %s' % (k + 1, jref, to)
            st.trans()
            missing = url not in ds or docs.walk(ds[url], toks) is docs.MISSING
            if url == R and (k == len(seq) or start[0] == 'C' and (k + seq[0][0]) % 2):
                jref = pointer(toks)    # the same place of the root document
            try:
                got, at_ = app.resolve_obj(jref, version, parser=None if not toks else getattr(v2 if version == '2.0' else v3, kind), to_spec_version=to)
            except Exception as e:
                if missing:
                    continue
                raise Fail('%s(%s)' % (type(e).__name__, e))
            expect(not missing, 'resolves to %s', short(got))
            expect_eq(at_.partition('#')[0], url, 'document of the result')
            if (i, to) in results:
                # what is converted depending on what encloses it is part of the whole once that is migrated
                moved = version != to and kind in MOVED and any(ps[j][0] == url and not ps[j][1] and t == to for j, t in seq)
                expect(real(results[(i, to)]) is real(got) or moved, 'another object than before')
            results[(i, to)] = got      # nobody but the application owns it
            st.state([start, seq[:k + 1]])
        for (i, to), got in results.items():
            where = 'at the end, %s to %s' % (ps[i][:2], to)
            url, toks, kind, _ = ps[i]
            content(real(got), ds, url, toks, kind, version, to, start)
        where = 'fetched documents'
        log = [u for u in app.log if u in at]
        expect(len(log) == len(set(log)), 'a document was fetched twice: %s', log)
    except ReferenceError:
        raise Fail('from %s, resolving %s\n  %s: what was handed out is gone' % (start, [(ps[i][0] + pointer(ps[i][1]), to) for i, to in seq], where))
    except Fail as e:
        raise Fail('from %s, resolving %s\n  %s: %s' % (start, [(ps[i][0] + pointer(ps[i][1]), to) for i, to in seq], where, e))
    st.trace()


def content(o, ds, url, toks, kind, version, to, start):
    if start == 'raw':
        plain(o, docs.walk(ds[url], toks), kind)
        return
    tab = {'2.0': v2, '3.0.0': v3}[to]
    if not toks:
        d = o.dump()
        for t, v in docs.nodes(d):
            if t[-1:] == ['$ref'] and v.startswith('#'):
                expect(docs.walk(d, docs.tokens(v)) is not docs.MISSING, 'the reference %r at %s leads nowhere', v, pointer(t))
    if version == to:
        expect(isinstance(o, getattr(tab, kind)), 'is a %s', type(o).__name__)
        Graph(ds, version, identity=False).check(o, url, toks, kind)
        return
    raw = docs.walk(ds[url], toks)
    g = Graph(ds, to, identity=False)
    if kind == 'Schema':
        expect(isinstance(o, v3.Schema), 'is a %s', type(o).__name__)
        g.check(o, url, toks, 'Schema*')
    elif kind == 'PathItem':
        expect(isinstance(o, v3.PathItem), 'is a %s', type(o).__name__)
        for m in ('get', 'put', 'post'):
            expect((m in raw) == (getattr(o, m) is not None), 'operation %s', m)
            if m in raw:
                n = getattr(o, m)
                expect_eq(n.operationId, raw[m]['operationId'], 'operation %s' % m)
                body(g, n.responses['200'], url, list(toks) + [m, 'responses', '200'])
    elif kind == 'Parameter':
        if raw['in'] == 'body':
            expect(isinstance(o, v3.RequestBody), 'is a %s', type(o).__name__)
            body(g, o, url, toks)
        else:
            expect(isinstance(o, v3.Parameter), 'is a %s', type(o).__name__)
            expect_eq(o.name, raw['name'], 'name')
    elif kind == 'Response':
        expect(isinstance(o, v3.Response), 'is a %s', type(o).__name__)
        expect_eq(o.description, raw['description'], 'description')
        body(g, o, url, toks)
    else:
        expect(isinstance(o, v3.OpenApi), 'is a %s', type(o).__name__)
        expect_eq(o.info.title, raw['info']['title'], 'title')
        for k in raw['definitions']:
            g.check(o.components.schemas[k], url, ['definitions', k], 'Schema*')


def body(g, o, url, toks):
    expect(list(o.content.keys()), 'no content')
    for ct in o.content.keys():
        g.check(o.content[ct].schema, url, list(toks) + ['schema'], 'Schema*')


def plain(o, raw, kind):
    """content of an object that is not migrated: references carry nothing yet"""
    expect(isinstance(o, getattr(v2, kind)), 'is a %s', type(o).__name__)
    expect_eq(o.dump(), raw, 'content')
