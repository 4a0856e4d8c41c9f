"""C13: traversal visits every object exactly once, with its JSON pointer.

Explored: every nesting chain of every object type of 1.2, 2.0 and 3.0.0, full documents and their variants with widened maps and
lists, with every choice of <= k leaf types; every registration of handlers (<= 3 routes x <= 2 handlers x type sets x result function).
Oracle: the specification objects of the raw document (spec.objects).
"""
import collections
import copy
import itertools
import docs
import gen
import spec
from core import expect, expect_eq, short
from props import c03, c04
from pyopenapi.migration.scan import scan, Scanner, Dispatcher

ID, LEVEL = 'C13', 'model_checking'
RULE = ('a state is (document, leaf types, handler registration); each traversal is run on the real code and its log of '
        '(pointer, object, handler, result) compared with the objects found in the raw document')
BOUNDS = {'quick': 'chains of <= 2 nested objects, single leaf types, <= 2 routes',
          'thorough': 'chains of <= 3 nested objects, pairs of leaf types, <= 3 routes'}
ASSUMPTIONS = ['the order in which objects are visited is not specified', 'handlers do not edit the tree during the traversal']
ROOTS = {'1.2': ('ApiDeclaration', lambda: c03.listing()[1]['pet']), '2.0': ('Swagger', docs.doc2), '3.0.0': ('OpenApi', docs.doc3)}


def cases(tier):
    deep = tier == 'thorough'
    for v in ('1.2', '2.0', '3.0.0'):
        for name in gen.types(v):
            for part in range(8 if deep else 2):
                yield ['chain', v, name, 3 if deep else 2, part, 8 if deep else 2]
            yield ['full', v, name]
        for l in gen.types(v):
            yield ['leaf', v, [l]]
        for l, m in itertools.combinations(gen.types(v), 2):
            if deep or hash_(l + m) % 8 == 0:
                yield ['leaf', v, [l, m]]
    for v in ('2.0', '3.0.0'):
        for i in range(len(c04.containers(v))):
            yield ['wide', v, i]
    for r in range(len(RESULTS)):
        yield ['result', r]
    for i in range(len(registrations(deep))):
        yield ['routes', deep, i]
    yield ['misc']


def hash_(s):
    return sum(ord(c) * 31 ** (i % 5) for i, c in enumerate(s))


def recorder(version, log, with_app):
    class Rec(object):
        class Disp(Dispatcher):
            pass
    classes = [spec.cls(version, n) for n in gen.types(version)]
    if with_app:
        @Rec.Disp.register(classes)
        def h(self, path, obj, app):
            log.append((path, obj, app))
    else:
        @Rec.Disp.register(classes)
        def h(self, path, obj):
            log.append((path, obj, None))
    return Rec()


def visit(st, version, name, doc, leaves=(), root=None):
    st.state([version, name, doc, list(leaves)])
    root = spec.cls(version, name)(copy.deepcopy(doc), '#') if root is None else root
    want = collections.OrderedDict()
    cut = []
    for toks, t, raw in spec.objects(doc, name, version):
        if any(toks[:len(c)] == c and toks != c for c in cut):
            continue
        if t in leaves:
            cut.append(toks)
        want[docs.pointer(toks)] = (t, toks)
    lv = [spec.cls(version, l) for l in leaves]
    for app in (None, 'app'):
        log = []
        r = recorder(version, log, app is not None)
        kw = {'leaves': lv} if leaves else {}
        if app:
            Scanner(app).scan(route=[r], root=root, **kw)
        else:
            scan(route=[r], root=root, **kw)
        st.trans(len(want))
        what = '%s %s, leaves %s' % (version, short(doc, 1200), list(leaves))
        got = {}
        for path, obj, a in log:
            if app and (path, obj) in [(p, o) for p, o, _ in got.values()] and type(obj).__mro__[1] in [spec.cls(version, n) for n in gen.types(version)]:
                continue        # a handler registered for a base type, too
            expect(path not in got, '%s: %r visited twice', what, path)
            got[path] = (path, obj, a)
            expect(a == app, '%s: the handler got %r as application', what, a)
        expect_eq(sorted(got), sorted(want), 'pointers visited in ' + what)
        for path, (t, toks) in want.items():
            obj = got[path][1]
            expect(type(obj) is spec.cls(version, t), '%s: %r is a %s, visited as %s', what, path, t, type(obj).__name__)
            expect(obj is root.resolve(list(toks)), '%s: the object visited at %r is not the one located there', what, path)
    st.trace()


def run(case, st):
    kind = case[0]
    if kind == 'chain':
        _, v, name, k, part, n = case
        for i, (path, d) in enumerate(gen.chains(v, name, k)):
            if i % n == part:
                visit(st, v, name, d)
    elif kind == 'full':
        visit(st, case[1], case[2], gen.full(case[1], case[2]))
    elif kind == 'leaf':
        v = case[1]
        name, mk = ROOTS[v]
        visit(st, v, name, mk(), case[2])
        if v == '1.2':
            visit(st, v, 'ResourceListing', c03.listing()[0], case[2])
    elif kind == 'wide':
        v, i = case[1:]
        toks, k = c04.containers(v)[i]
        visit(st, v, ROOTS[v][0], c04.variant(v, ROOTS[v][1](), toks, k, 'wide'))
    elif kind == 'routes':
        run_routes(st, registrations(case[1])[case[2]])
    elif kind == 'result':
        run_result(st, RESULTS[case[1]])
    else:
        misc(st)


# ------------------------------------------------------------------ handler registration

TREE = {'parameters': [{'name': 'n', 'in': 'query', 'schema': {'items': {'$ref': '#/x'}}}, {'$ref': '#/y'}],
        'responses': {'d/~': {'description': '', 'headers': {'h': {'schema': {'title': ''}}}}}}
SETS = [['Schema'], ['Header'], ['Parameter'], ['Parameter', 'Header'], ['Schema', 'Reference', 'Operation'], ['Response', 'Header', 'Schema'], []]


def registrations(deep):
    """routes: each a list of (handlers: list of type sets, result function?)"""
    one = [([a], r) for a in SETS for r in (False, True)] + [([a, b], r) for a in SETS[:6] for b in SETS[2:6] for r in (False, True)]
    out = [[x] for x in one] + [[x, y] for x in one[::3] for y in one[::5]] + [[]]
    if deep:
        out = [[x] for x in one] + [[x, y] for x in one for y in one[::2]] + [[x, y, z] for x in one[::6] for y in one[::7] for z in one[::5]] + [[]]
    return out


def run_routes(st, regs):
    st.state(regs)
    version = '3.0.0'
    for with_app in (False, True):
        log, routes = [], []
        for r, (handlers, res) in enumerate(regs):
            class Disp(Dispatcher):
                pass
            Route = type('Route', (object, ), {'Disp': Disp, 'no': r})
            for h, types in enumerate(handlers):
                def mk(r, h):
                    if with_app:
                        return lambda self, path, obj, app: (log.append(('h', self.no, r, h, path, app)), (h, path))[1]
                    return lambda self, path, obj: (log.append(('h', self.no, r, h, path, None)), (h, path))[1]
                fn = mk(r, h)
                expect(Disp.register([spec.cls(version, t) for t in types])(fn) is fn, 'register() returns the handler itself')
            if res:
                def mkres(r):
                    return lambda self, ret: log.append(('res', self.no, r, ret[0], ret[1]))
                fn = mkres(r)
                expect(Disp.result(fn) is fn, 'result() returns the function itself')
            routes.append(Route())
        root = spec.cls(version, 'Operation')(copy.deepcopy(TREE), '#')
        if with_app:
            Scanner('app').scan(route=routes, root=root)
        else:
            scan(route=routes, root=root)
        want = {}
        for toks, t, raw in spec.objects(TREE, 'Operation', version):
            path = docs.pointer(toks)
            w = want.setdefault(path, [])
            for r, (handlers, res) in enumerate(regs):
                # Scanner also calls the handlers of base types: a Header is a Parameter
                for typ in [t] + (['Parameter'] if with_app and t == 'Header' else []):
                    for h, types in enumerate(handlers):
                        if typ in types:
                            w.append(('h', r, r, h, path, 'app' if with_app else None))
                            if res:
                                w.append(('res', r, r, h, path))
        got = dict((p, []) for p in want)
        for e in log:
            path = e[4]
            expect(path in got, 'visited %r', path)
            got[path].append(e)
        st.trans(len(log))
        for p in want:
            expect(got[p] == want[p], 'routes %s, object at %s\n  expected calls %s\n  got            %s', short(regs), p, want[p], got[p])
    st.trace()


RESULTS = [None, 0, False, '', [], {}, (), 'x', [None], object]


def run_result(st, value):
    """whatever a handler returns reaches the result function"""
    for with_app in (False, True):
        for types in (['Schema'], ['Operation', 'Response'], ['Reference']):
            st.state([repr(value), with_app, types])

            class Disp(Dispatcher):
                pass
            log, got = [], []
            fn = (lambda self, path, obj, app: (log.append(path), value)[1]) if with_app else (lambda self, path, obj: (log.append(path), value)[1])
            Disp.register([spec.cls('3.0.0', t) for t in types])(fn)
            Disp.result(lambda self, ret: got.append((self, ret)))
            route = type('Route', (object, ), {'Disp': Disp})()
            root = spec.cls('3.0.0', 'Operation')(copy.deepcopy(TREE), '#')
            if with_app:
                Scanner('app').scan(route=[route], root=root)
            else:
                scan(route=[route], root=root)
            n = sum(1 for toks, t, raw in spec.objects(TREE, 'Operation', '3.0.0') if t in types)
            st.trans(n)
            expect_eq(len(log), n, 'handler calls')
            expect(len(got) == n and all(s is route and r is value for s, r in got), 'results %s of %d handlers that each returned %r', [r for _, r in got], n, value)
    st.trace()


def misc(st):
    from pyopenapi.migration.versions.v3_0_0 import objects as v3
    s = v3.Schema({'items': {'title': 'a'}}, '#')
    for f in (lambda r: scan(route=[], root=r), lambda r: Scanner('a').scan(route=[], root=r)):
        try:
            f(None)
        except ValueError:
            pass
        else:
            expect(False, 'scanning nothing must raise ValueError')
        f(s)
    for bad in (dict, list, str, object, Exception):
        class D(Dispatcher):
            pass
        try:
            D.register([bad])(lambda *a: None)
        except ValueError:
            pass
        else:
            expect(False, 'registering %s must raise ValueError', bad)
    # dispatchers do not share registrations, subclassed or not
    log = []

    class A(object):
        class Disp(Dispatcher):
            pass

    @A.Disp.register([v3.Schema])
    def f(self, path, obj):
        log.append(('A', path))

    A.Disp.result(lambda self, ret: log.append(('resA', None)))

    class B(object):
        class Disp(A.Disp):
            pass

    @B.Disp.register([v3.Schema])
    def g(self, path, obj):
        log.append(('B', path))
    scan(route=[A()], root=s)
    expect_eq(sorted(x for x in log if x[1]), [('A', '#'), ('A', '#/items')], 'handlers of the first route')
    expect_eq(len([x for x in log if x[0] == 'resA']), 2, 'results of the first route')
    A.Disp.result(None)
    del log[:]
    scan(route=[B()], root=s)
    expect_eq(sorted(log), [('B', '#'), ('B', '#/items')], 'handlers of a dispatcher derived from another one')
    # a different traversal
    del log[:]
    seen = []

    def nexter(root, leaves):
        seen.append((root, leaves))
        yield '#/q', root
        yield '#/r', root
    scan(route=[A()], root=s, nexter=nexter, leaves=[v3.Header])
    expect_eq(log, [('A', '#/q'), ('A', '#/r')], 'custom traversal')
    expect(len(seen) == 1 and seen[0][0] is s and list(seen[0][1]) == [v3.Header], 'the traversal gets root and leaves')
    # scanning again gives the same
    del log[:]
    for _ in range(2):
        scan(route=[A()], root=s)
    expect(log == [('A', '#'), ('A', '#/items')] * 2 or sorted(log) == sorted([('A', '#'), ('A', '#/items')] * 2), 'scanning twice')
    st.state('misc')
    st.trans(8)
    st.trace()
