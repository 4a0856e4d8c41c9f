"""C11: a path item with $ref is its own content over the referenced content.

Explored: every way N path items can refer to each other (or to nothing), including cycles and self references, x the document each
one is in x version (2.0, 3.0.0, 2.0 migrated to 3.0.0). Every pattern of which path items define a member is present in each
document at once (one member per pattern, the assignment of patterns to members is rotated).
"""
import copy
import itertools
import docs
from core import Fail, expect, expect_eq, short
from docs import pointer
from env import MemApp
from graph import address, real
from pyopenapi.utils import final

ID, LEVEL = 'C11', 'model_checking'
RULE = ('a state is a set of documents with a path item graph; a transition is loading it; the merged form of every path item that can be '
        'reached is compared member by member with the first definition in its chain')
BOUNDS = {'quick': 'all 64 graphs of 3 path items x 14 document placements x 3 versions x 3 member rotations; all 8 distributions of a member over 3 path items in each',
          'thorough': 'all 625 graphs of 4 path items x 24 placements x 3 versions x all member rotations, all 16 distributions; all 27 placements of 3 path items'}
ASSUMPTIONS = ['a member that is an empty container counts as neither defined nor missing and is not explored',
               'path level body and form parameters of 2.0 have no counterpart at a path item of 3.0']

R, B, C = 'http://h/d/root.json', 'http://h/d/b.json', 'http://h/e/c.json'
URL = {'r': R, 'b': B, 'B': B, 'c': C}
OPS = 'get put post delete options head patch'.split()
MEMBERS = {'2.0': OPS + ['parameters'], '3.0.0': ['get', 'summary', 'servers', 'description', 'parameters', 'trace', 'put', 'patch', 'post', 'delete', 'options', 'head']}


def where(i, place):
    if place in 'rB':
        return ['paths', '/p%d~/{a}' % i]
    return ['x', 'q%d/' % i]


def member(m, i, version):
    mark = 'i%d' % i
    if m == 'parameters':
        p = {'name': mark, 'in': 'query'}
        p.update({'type': 'string'} if version == '2.0' else {'schema': {'type': 'string'}})
        return [p, {'$ref': '#/parameters/P' if version == '2.0' else '#/components/parameters/P'}]
    if m == 'servers':
        return [{'url': mark}]
    if m == 'summary':
        return '' if i % 2 else mark
    if m == 'description':
        return mark if i % 2 else ''
    return {'operationId': mark + m, 'deprecated': False, 'responses': {'200': {'description': ''}}}


def make(nexts, places, rot, version):
    ds = {}
    n = len(nexts)
    for w in 'r' + places:
        if w in 'rB':
            d = {'swagger': '2.0'} if version == '2.0' else {'openapi': '3.0.0'}
            d.update(info={'title': w, 'version': '1'}, paths={})
        else:
            d = {'x': {}}
        if version == '2.0':
            d['parameters'] = {'P': {'name': 'P' + w, 'in': 'header', 'type': 'string'}}
        else:
            d['components'] = {'parameters': {'P': {'name': 'P' + w, 'in': 'header', 'schema': {'type': 'string'}}}}
        ds.setdefault(URL[w], d)
    ms = MEMBERS[version]
    for i, nx in enumerate(nexts):
        item = {}
        for k in range(len(ms)):
            if (k + rot) % (1 << n) >> i & 1:
                item[ms[k]] = member(ms[k], i, version)
        if nx is not None:
            a, b = URL[places[i]], URL[places[nx]]
            p = pointer(where(nx, places[nx]))
            item['$ref'] = p if a == b and (i + nx) % 2 == 0 else {(R, B): 'b.json', (B, R): '/d/root.json', (B, C): '../e/c.json', (C, R): '../d/root.json'}.get((a, b), b) + p
        d = ds[a if nx is not None else URL[places[i]]]
        t = where(i, places[i])
        d[t[0]][t[1]] = item
    # an entry in the root, when the first path item is not there
    if places[0] != 'r':
        ds[R]['paths']['/entry'] = {'$ref': URL[places[0]] + pointer(where(0, places[0]))}
    return ds


P3 = ['rrr', 'rrb', 'rbr', 'brr', 'rbb', 'brb', 'bbr', 'bbb', 'rBr', 'BrB', 'rbc', 'bcr', 'crb', 'rcb']
P4 = ['rrrr', 'rbrb', 'rbcr', 'brbr', 'bbrr', 'rrbb', 'bcrb', 'rBrB', 'BBrr', 'rcbr', 'crbr', 'bbbb', 'rrrb', 'rrbr', 'rbrr', 'brrr', 'rbbb', 'bccb', 'brcr', 'rBcB', 'crrb', 'cBrr', 'rcrc', 'brrb']


def cases(tier):
    deep = tier == 'thorough'
    for v in ('2.0', '3.0.0', '2.0>3.0.0'):
        for p in ([''.join(x) for x in itertools.product('rbc', repeat=3)] + ['rBr', 'BrB'] if deep else P3):
            yield [v, p, list(range(12)) if deep else [0, 3, 6]]
        if deep:
            for p in P4:
                for k in (None, 0, 1, 2, 3):
                    yield [v, p, [0, 4, 8, 12], k]


def run(case, st):
    mode, places, rots = case[:3]
    n = len(places)
    choice = [None] + list(range(n))
    for nexts in itertools.product(*([choice if len(case) < 4 else [case[3]]] + [choice] * (n - 1))):
        for rot in rots:
            check(make(nexts, places, rot, mode.split('>')[0]), mode, st)
    st.outcome([mode, len(places)])


def check(ds, mode, st):
    st.state([mode, ds])
    st.trans()
    src = copy.deepcopy(ds)
    try:
        app = MemApp(ds, R, mode.split('>')[-1])
        verify(app, src, mode, st)
    except Fail as e:
        raise Fail('%s of %s:\n  %s' % (mode, short(src, 3000), e))
    except Exception as e:
        raise Fail('loading (%s) %s: %s(%s)' % (mode, short(src, 3000), type(e).__name__, e))
    st.trace()


def verify(app, src, mode, st):
    root = app.raw if mode == '2.0' else app.root
    seen = {}
    todo = [(root.paths[k], R, ('paths', k)) for k in src[R]['paths']]
    while todo:
        o, url, toks = todo.pop()
        o = real(o)
        if (url, toks) in seen:
            expect(seen[(url, toks)] is o, 'two path items for %s%s', url, pointer(toks))
            continue
        seen[(url, toks)] = o
        raw = docs.walk(src[url], list(toks))
        at = '%s%s' % (url, pointer(toks))
        expect(type(o).__name__ == 'PathItem', '%s is a %s', at, type(o).__name__)
        content(o, [(raw, url)], mode, src, 'path item %s' % at)
        if '$ref' in raw:
            chain, addrs, cu, ct = [], set(), url, toks
            while (cu, ct) not in addrs:
                addrs.add((cu, ct))
                r = docs.walk(src[cu], list(ct))
                chain.append((r, cu))
                if '$ref' not in r:
                    break
                cu, ct = address(r['$ref'], cu)
            attrs = o.get_attrs('migration')
            expect(attrs is not None and attrs.ref_obj is not None, 'the reference of %s carries nothing', at)
            todo.append((attrs.ref_obj, ) + address(raw['$ref'], url))
            f = final(o)
            expect(f is not o, 'the path item %s has no merged form', at)
            content(f, chain, mode, src, 'merged path item %s' % at)
            content(o, [(raw, url)], mode, src, 'original path item %s after merging' % at)
        else:
            expect(final(o) is o, 'a path item without $ref has another final form')


def content(o, chain, mode, src, what):
    """the object has each member of the first element of the chain that defines it"""
    for m in MEMBERS[mode.split('>')[-1]]:
        want = None
        for r, u in chain:
            if r.get(m) is not None:
                want, doc = r[m], src[u]
                break
        got = getattr(o, m)
        if want is None:
            expect(got is None, '%s has %r: %s', what, m, short(got, 300))
            continue
        expect(got is not None, '%s has no %r', what, m)
        if m == 'parameters':
            expect(len(got) == len(want), '%s has %d parameters', what, len(got))
            expect_eq([got[0].name, real(got[0]).__class__.__name__, real(got[1]).__class__.__name__], [want[0]['name'], 'Parameter', 'Reference'], '%s: parameters' % what)
            attrs = got[1].get_attrs('migration')
            expect(attrs is not None and attrs.ref_obj is not None, '%s: the referenced parameter is missing', what)
            # the P of the document that defines the member
            expect_eq(attrs.ref_obj.name, doc.get('components', doc)['parameters']['P']['name'],
                      '%s: referenced parameter' % what)
        elif m == 'servers':
            expect_eq([s.url for s in got], [s['url'] for s in want], '%s: servers' % what)
        elif m in ('summary', 'description'):
            expect_eq(got, want, '%s: %s' % (what, m))
        else:
            expect_eq([got.operationId, got.deprecated], [want['operationId'], False], '%s: %s' % (what, m))
