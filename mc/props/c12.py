"""C12: dereferencing follows a chain to its end and reports every cycle.

Explored: every functional graph on <= n objects (each object is a plain one, a reference that is not attached,
or a reference attached to any object, itself included), for every assignment rotation of object kinds, with
direct and weak attachment; on each graph every object is dereferenced, in several orders, twice, with and
without a caller's guard.  The same graphs are also written as documents, loaded and dereferenced.
"""
import itertools
import weakref
from core import Fail, expect, expect_eq
from env import MemApp
from pyopenapi import utils
from pyopenapi.errs import CycleDetectionError
from pyopenapi.migration.versions.v2_0 import objects as v2, attrs as a2
from pyopenapi.migration.versions.v3_0_0 import objects as v3, attrs as a3

ID, LEVEL = 'C12', 'model_checking'
RULE = ('a state is a functional graph of references with its kinds of objects; a transition is one dereference; the result '
        'is compared with following the edges of the graph; documents of the same shape are loaded by the real application')
BOUNDS = {'quick': 'graphs on <= 4 objects x 5 rotations of kinds x 2 kinds of attachment; chains of <= 69; documents with <= 3 definitions',
          'thorough': 'graphs on <= 5 objects; chains of <= 199; documents with <= 4 definitions'}
ASSUMPTIONS = ['a reference is an object with a non-empty $ref']

KINDS = [(v3.Reference, a3.ReferenceAttributeGroup), (v2.Schema, a2.SchemaAttributeGroup), (v2.PathItem, a2.PathItemAttributeGroup),
         (v3.PathItem, a3.PathItemAttributeGroup), (v2.Reference, a2.ReferenceAttributeGroup)]
PLAIN = [v3.Schema, v2.Schema, v2.PathItem, v3.PathItem, v2.Parameter]
PLAINREF, NOATTRS, UNATTACHED = 'plain', 'noattrs', 'unattached'


def graphs(n):
    return itertools.product([PLAINREF, NOATTRS, UNATTACHED] + list(range(n)), repeat=n)


def cases(tier):
    deep = tier == 'thorough'
    for n in range(1, 4):
        for g in graphs(n):
            yield ['graph', list(g)]
    for n in ((4, 5) if deep else (4, )):
        for lead in itertools.product([PLAINREF, NOATTRS, UNATTACHED] + list(range(n)), repeat=2):
            yield ['graphs', n, list(lead)]
    for n in range(1, (4 if deep else 3) + 1):
        for kind in ('2', '3', 'p2', 'p3', '2>3'):
            for g in itertools.product([PLAINREF] + list(range(n)), repeat=n):
                yield ['doc', kind, list(g)]
    yield ['final']
    for n in range(5, 200 if deep else 70):
        yield ['long', n]


def expected(g, i):
    """index reached from i, or None when the chain is cyclic"""
    seen = set()
    while isinstance(g[i], int):
        if i in seen:
            return None
        seen.add(i)
        i = g[i]
    return i


def build(g, rot, weak):
    objs = []
    for i, k in enumerate(g):
        if k == PLAINREF:
            objs.append(PLAIN[(i + rot) % 5]({}, '#'))
        else:
            objs.append(KINDS[(i + rot) % 5][0]({'$ref': '#/x%s' % k}, '#'))
    for i, k in enumerate(g):
        if k in (PLAINREF, NOATTRS):
            continue
        at = objs[i].get_attrs('migration', KINDS[(i + rot) % 5][1])
        at.normalized_ref = 'http://h/r.json#/x'
        if isinstance(k, int):
            at.ref_obj = weakref.proxy(objs[k]) if weak else objs[k]
    return objs


def is_same(a, b):
    return a is b or (isinstance(a, weakref.ProxyTypes) and a.__repr__.__self__ is b) or \
        (isinstance(a, weakref.ProxyTypes) and a.spec is b.spec and a.__class__ is b.__class__)


def one(st, objs, g, i, guard, what):
    want = expected(g, i)
    st.trans()
    try:
        got = utils.deref(objs[i], utils.CycleGuard()) if guard else utils.deref(objs[i])
    except CycleDetectionError:
        expect(want is None, '%s: deref(object %d) reported a cycle, expected object %s', what, i, want)
        st.outcome('cycle')
        return
    except RuntimeError as e:
        raise Fail('%s: deref(object %d): %r' % (what, i, e))
    if want is None:
        j = [j for j, o in enumerate(objs) if is_same(got, o)]
        raise Fail('%s: deref(object %d) returned object %s, but the chain is cyclic' % (what, i, j))
    expect(is_same(got, objs[want]), '%s: deref(object %d) is not object %d but %r (object %s)', what, i, want, got,
           [j for j, o in enumerate(objs) if is_same(got, o)])
    st.outcome([i == want, g[want]])


def check(st, g):
    n = len(g)
    for rot in range(5 if n < 4 else 2):
        for weak in (False, True):
            objs = build(g, rot + sum(x if isinstance(x, int) else 1 for x in g), weak)
            what = 'graph %r, kinds rotated by %d, %s attachment' % (list(g), rot, 'weak' if weak else 'direct')
            st.state([list(g), rot])
            for order in (range(n), range(n - 1, -1, -1)):
                for i in order:
                    one(st, objs, g, i, False, what)
                    one(st, objs, g, i, True, what)
            st.trace()
            # continuing from a place already visited is a cycle as well
            guard = utils.CycleGuard()
            guard.update(objs[0])
            try:
                utils.deref(objs[0], guard)
            except CycleDetectionError:
                pass
            else:
                raise Fail('%s: an object already visited by the guard was not reported' % what)


def run(case, st):
    if case[0] == 'graph':
        check(st, case[1])
    elif case[0] == 'graphs':
        for tail in itertools.product([PLAINREF, NOATTRS, UNATTACHED] + list(range(case[1])), repeat=case[1] - 2):
            check(st, list(case[2]) + list(tail))
    elif case[0] == 'long':
        n = case[1]
        for end in [PLAINREF, UNATTACHED, NOATTRS] + list(range(0, n, max(1, n // 8))) + [n - 1]:
            g = list(range(1, n)) + [end]
            objs = build(g, n, n % 2 == 0)
            st.state(g)
            for i in sorted({0, 1, n // 2, n - 1}):
                one(st, objs, g, i, False, 'chain of %d ending in %r' % (n, end))
            st.trace()
    elif case[0] == 'doc':
        run_doc(st, case[1], case[2])
    else:
        run_final(st)


def run_doc(st, kind, g):
    """the graph as a document: definitions / schemas / path items"""
    n = len(g)
    url = 'http://h/root.json'
    if kind in ('2', '2>3'):
        d = {'swagger': '2.0', 'paths': {}, 'definitions': dict(
            ('D%d' % i, {'title': 't%d' % i} if k == PLAINREF else {'$ref': '#/definitions/D%d' % k}) for i, k in enumerate(g))}
    elif kind == '3':
        d = {'openapi': '3.0.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}, 'components': {'schemas': dict(
            ('D%d' % i, {'title': 't%d' % i} if k == PLAINREF else {'$ref': '#/components/schemas/D%d' % k}) for i, k in enumerate(g))}}
    else:
        d = {'info': {'title': 't', 'version': '1'}, 'paths': dict(
            ('/D%d' % i, {'get': {'summary': 't%d' % i, 'responses': {}}} if k == PLAINREF else {'$ref': '#/paths/~1D%d' % k}) for i, k in enumerate(g))}
        d.update({'swagger': '2.0'} if kind == 'p2' else {'openapi': '3.0.0'})
    app = MemApp({url: d}, url, to='2.0' if kind in ('2', 'p2') else '3.0.0')
    st.state([kind, g])
    if kind in ('2', ):
        objs = [app.root.definitions['D%d' % i] for i in range(n)]
    elif kind in ('3', '2>3'):
        objs = [app.root.components.schemas['D%d' % i] for i in range(n)]
    else:
        objs = [app.root.paths['/D%d' % i] for i in range(n)]
    for i in range(n):
        one(st, objs, g, i, False, 'document %s %r' % (kind, g))
    st.trace()


def run_final(st):
    for cls, grp in KINDS:
        for at in ('none', 'unset', 'set'):
            o = cls({'$ref': '#/x'}, '#')
            m = cls({'$ref': '#/y'}, '#')
            if at != 'none':
                g = o.get_attrs('migration', grp)
                g.ref_obj = m
                if at == 'set':
                    g.final_obj = m
            got = utils.final(o)
            st.trans()
            st.state([cls.__module__, cls.__name__, at])
            want = m if at == 'set' else o
            expect(got is want, 'final view of a %s reference (%s): expected %s, got %s', cls, at, 'the merged form' if at == 'set' else 'itself', got)
            expect(utils.final(o) is want, 'final view changed when asked again')
    for cls in PLAIN + [v2.Operation, v3.Operation]:
        o = cls({}, '#')
        expect(utils.final(o) is o, 'final view of a plain %s is not itself', cls)
        if hasattr(o, 'ref'):
            o.get_attrs('migration', a3.PathItemAttributeGroup).final_obj = None
            expect(utils.final(o) is o, 'final view of a plain %s is not itself', cls)
    st.trace()
