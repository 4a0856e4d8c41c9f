"""C24: what an application hands out went through its prepare hook.

Explored: all reference graphs over the schemas of a document and of fragments of two other documents, where each schema contains a
reference, is one, or has none, x versions x what is resolved before the document is migrated; APIs of several documents with references
of every kind. At every call of the hook, what it is given has to be complete (its references attached) and to be what
the application has at the address given; everything reachable from the result has to be part of something the hook was given,
at every version on the way. Then hooks that give other objects, for every kind of object and version; and all sequences of loads, migrations and
resolutions up to a depth, after each of which the application has to report the versions of its documents.
"""
import copy
import itertools
import docs
from core import Fail, expect, expect_eq, same, short
from env import MemApp
from graph import real
from props import c17
from pyopenapi.migration.spec import Base2Obj, _List, _Map
from pyopenapi.migration.versions.v2_0 import objects as v2
from pyopenapi.migration.versions.v3_0_0 import objects as v3

ID, LEVEL = 'C24', 'model_checking'
RULE = ('a state is a set of documents with what has been resolved on the application so far, a transition is one call of the application or '
        'of its hook; all graphs, choices and sequences up to the bound are enumerated')
BOUNDS = {'quick': 'all graphs over 1 schema of the document and 2 fragments (1 containing or being a reference each) x 3 version pairs x 3 ways; 5 APIs; 12 kinds of objects given by the hook; sequences of 3 calls over 11',
          'thorough': 'all graphs over 2 schemas of the document and 2 fragments; sequences of 4 calls'}
ASSUMPTIONS = ['the hook gives what it is given (after recording or editing it), unless said otherwise', 'an object may be given to the hook more than once', 'a fragment that is a reference itself is attached by what refers to it (its type is not known before)']

R, F, G = 'http://h/d/root.json', 'http://h/d/f.json', 'http://h/d/g.json'
PAIRS = [('2.0', '2.0'), ('2.0', '3.0.0'), ('3.0.0', '3.0.0')]


def everything(o, inside=False):
    """all objects of a tree"""
    o = real(o)
    if isinstance(o, _Map):
        for k in o.keys():
            for x in everything(o[k]):
                yield x
    elif isinstance(o, _List):
        for i in range(len(o)):
            for x in everything(o[i]):
                yield x
    elif isinstance(o, Base2Obj):
        yield o
        for k in o.__children__:
            for x in everything(getattr(o, k)):
                yield x


def carried(o):
    a = o.get_attrs('migration')
    r = getattr(a, 'ref_obj', None) if a is not None else None
    return None if r is None else real(r)


def is_ref(o):
    return bool('$ref' in o.__fields__ and o.is_set('$ref') and isinstance(getattr(o, '$ref'), str))


class App(MemApp):
    """records what the hook is given"""

    def prepare_obj(self, obj, jref):
        obj = real(obj)
        given = self.__dict__.setdefault('given', [])
        given.append((obj, obj.__swagger_version__, jref))
        if obj.__swagger_version__ != '1.2':
            for x in everything(obj):
                if x is not obj and is_ref(x) and type(x).__name__ != 'PathItem' and carried(x) is None and not hasattr(self, 'incomplete'):
                    self.incomplete = '%s given for %s has a reference to %s that carries nothing' % (short(x.dump()), jref, getattr(x, '$ref'))
        return obj


def check(app, results, to, original, st):
    """results: what the application returned"""
    expect(not hasattr(app, 'incomplete'), '%s', getattr(app, 'incomplete', ''))
    last = dict(((v, jref), o) for o, v, jref in app.given)
    for o, v, jref in app.given:
        st.trans()
        if last[v, jref] is not o:
            continue    # migrated anew
        if v == '1.2':
            expect(o is app.raw, 'the hook is given %s of version 1.2', short(o))
            continue
        expect(v in ('2.0', '3.0.0') and v <= to, 'the hook is given an object of version %s, migrating to %s', v, to)
        try:
            there = real(app.resolve_obj(jref, '2.0' if original == '1.2' else original, to_spec_version=v)[0])
        except Exception as e:
            raise Fail('the hook is given %s as %s, where nothing is found: %s(%s)' % (short(o.dump()), jref, type(e).__name__, e))
        if type(o) is type(there) is v3.Reference and original != v and jref.startswith(R):
            continue    # what a reference names depends on what encloses it
        expect(there is o, 'the hook is given %s as %s, but there is %s', short(o.dump()), jref, short(there))
    for v in ('2.0', '3.0.0'):
        if v > to or v < original:
            continue
        tops = set(id(o) for o, w, _ in app.given if w == v)
        todo, seen = [], set()
        if v == to:
            todo = [real(o) for o in results]
        else:
            todo = [o for o, w, _ in app.given if w == v]
        expect(todo, 'the hook is given nothing of version %s', v)
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            top, up = o, set()
            while id(top) not in tops:
                up.add(id(top))
                p = top.get_parent()
                if p is None:
                    raise Fail('%s of version %s was never given to the hook' % (short(top), v))
                top = real(p)
                expect(id(top) not in up, 'an object encloses itself')
            for x in everything(o):
                if carried(x) is not None:
                    todo.append(carried(x))
        # every address is prepared for every version on the way
        if v == to and original != v and original != '1.2':
            ahead = set(j for _, w, j in app.given if w == original)
            for _, w, j in app.given:
                expect(w != v or not j.startswith((F, G)) or j in ahead, '%s was prepared for %s, but not for %s', j, v, original)
    st.trace()


# ------------------------------------------------------------------ graphs

def graph(version, edges, n):
    """edges[i]: None, or (the place: 0 contained, 1 itself, target); the first n nodes are schemas of the document, the others fragments"""
    two = version == '2.0'
    pre = '#/definitions/' if two else '#/components/schemas/'

    def name(i):
        return R + pre + 'S%d' % i if i < n else (F, G)[i % 2] + '#/x/N%d' % i

    def node(i):
        e = edges[i]
        if e is None:
            return {'title': 't%d' % i}
        ref = {'$ref': name(e[1])}
        return ref if e[0] else {'title': 't%d' % i, 'items': ref}
    d = {'info': {'title': 'R', 'version': '1'}, 'paths': {'/a': {'get': {'responses': {'200': {'description': 'd'}}}}}}
    own = dict(('S%d' % i, node(i)) for i in range(n))
    if two:
        d.update(swagger='2.0', definitions=own)
    else:
        d.update(openapi='3.0.0', components={'schemas': own})
    out = {R: d, F: {'x': {}}, G: {'x': {}}}
    for i in range(n, len(edges)):
        out[(F, G)[i % 2]]['x']['N%d' % i] = node(i)
    return out, name


WAYS = ['document', 'fragments first', 'fragments after']


def choices(k):
    return [None] + [(p, t) for p in (0, 1) for t in range(k)]


def run_graph(case, st):
    _, pair, way, n, head, k = case
    version, to = PAIRS[pair]
    for tail in itertools.product(choices(k), repeat=k - len(head)):
        edges = [None if i < 0 else choices(k)[1:][i] for i in head] + list(tail)
        ds, name = graph(version, edges, n)
        if not st.state([pair, way, edges]):
            continue
        try:
            app = App(ds, R)
            parser = (v2 if version == '2.0' else v3).Schema
            if version == '3.0.0':
                parser = v3.if_not_ref_else(v3.Schema) if hasattr(v3, 'if_not_ref_else') else parser
            results = []

            def fragments():
                for i in range(n, k):
                    cls = parser if version == '2.0' else (v3.Reference if edges[i] and edges[i][0] else v3.Schema)
                    results.append(app.resolve_obj(name(i), version, parser=cls, to_spec_version=to)[0])
            if WAYS[way] == 'fragments first':
                fragments()
            results.append(app.migrate_obj(app.raw, R, to))
            if WAYS[way] == 'fragments after':
                fragments()
            check(app, results, to, version, st)
        except Fail as e:
            raise Fail('%s>%s, %s, graph %s\n%s\n%s' % (version, to, WAYS[way], edges, short(ds, 1500), e))
        except Exception as e:
            raise Fail('%s>%s, %s, graph %s\n%s\n%s(%s)' % (version, to, WAYS[way], edges, short(ds, 1500), type(e).__name__, e))
    st.outcome([pair, way])


# ------------------------------------------------------------------ APIs

APIS = {'two': c17.two, 'three': c17.three, 'one': c17.one, 'doc2': lambda: {R: docs.doc2()}, 'doc3': lambda: {R: docs.doc3()}}
ORIGINAL = {'two': '2.0', 'three': '3.0.0', 'one': '1.2', 'doc2': '2.0', 'doc3': '3.0.0'}


def run_api(case, st):
    _, name, to, again = case
    app = App(APIS[name](), R)
    st.state(case)
    results = [app.migrate_obj(app.raw, R, v) for v in ([to] if not again else ['2.0', to] if ORIGINAL[name] != '3.0.0' else [to, to])]
    results = results[-1:]
    if again:
        results.append(app.resolve_obj(R, '2.0' if ORIGINAL[name] == '1.2' else ORIGINAL[name], to_spec_version=to)[0])
        expect(real(results[1]) is results[0], 'resolving the document gives another object than migrating it')
    check(app, results, to, ORIGINAL[name], st)
    expect(any(o is results[0] and v == to for o, v, _ in app.given), 'the document was not given to the hook')
    # edits of the hook are what others see
    marked = []

    class Marking(MemApp):
        def prepare_obj(self, obj, jref):
            o = real(obj)
            if not any(x is o for x in marked):
                marked.append(o)
                if jref.partition('#')[0] == R and hasattr(o, 'info'):
                    o.attach_child('info', type(real(o.info))(dict(o.info.dump(), title=o.info.title + '!'), R + '#/info'))
            return obj
    m = Marking(APIS[name](), R)
    got = m.migrate_obj(m.raw, R, to)
    steps = [v for v in ('1.2', '2.0', '3.0.0') if ORIGINAL[name] <= v <= to]
    title = APIS[name]()[R]['info']['title']
    expect_eq(got.info.title, title + '!' * len(steps), 'what the hook edited in each version')
    st.trace()


# ------------------------------------------------------------------ hooks that give other objects

def fragments():
    """(version, type, content)"""
    for v, tab in (('2.0', v2), ('3.0.0', v3)):
        kinds = {'2.0': [('Schema', {'title': 'old'}), ('Parameter', {'name': 'old', 'in': 'query', 'type': 'string'}), ('Response', {'description': 'old'}), ('PathItem', {'get': {'summary': 'old', 'responses': {'200': {'description': 'd'}}}}),
                         ('Info', {'title': 'old', 'version': '1'}), ('License', {'name': 'old'})],
                 '3.0.0': [('Schema', {'title': 'old'}), ('Parameter', {'name': 'old', 'in': 'query', 'schema': {}}), ('Response', {'description': 'old'}), ('PathItem', {'summary': 'old'}),
                           ('RequestBody', {'description': 'old', 'content': {'a/b': {'example': 'old'}}}), ('Header', {'description': 'old', 'schema': {}})]}[v]
        for k, d in kinds:
            yield v, tab, k, d


def renamed(x):
    if isinstance(x, dict):
        return dict((k, renamed(v)) for k, v in x.items())
    if isinstance(x, list):
        return [renamed(v) for v in x]
    return 'new' + x[3:] if isinstance(x, str) and x.startswith('old') else x


def run_other(case, st):
    _, i, at = case
    v, tab, kind, d = list(fragments())[i]
    root = {'swagger': '2.0'} if v == '2.0' else {'openapi': '3.0.0'}
    root.update(info={'title': 'old root', 'version': '1'}, paths={'/a': {'get': {'responses': {'200': {'description': 'old d'}}}}})
    ds = {R: root, F: {'x': d}}

    class Other(MemApp):
        def prepare_obj(self, obj, jref):
            if obj.__swagger_version__ != at:
                return obj
            new = type(real(obj))(renamed(real(obj).dump()), jref)
            self.__dict__.setdefault('new', []).append(new)
            return new
    for to in ('2.0', '3.0.0'):
        if not v <= at <= to:
            continue
        st.state([v, kind, at, to])
        plain, app = MemApp(ds, R), Other(ds, R)
        want = plain.migrate_obj(plain.raw, R, to)
        got = app.migrate_obj(app.raw, R, to)
        expect(same(got.dump(), renamed(want.dump())), 'the document is migrated to %s, although the hook gave another one for %s', short(got.dump()), at)
        found = real(app.resolve_obj(R, v, to_spec_version=to)[0])
        expect(found is got, 'the application gives %s, not what migrating gave', short(found.dump()))
        info = real(app.resolve_obj(R + '#/info', v, to_spec_version=to)[0])
        expect(info is got.info, 'a part of the document is %s, not the one of what the hook gave', short(info.dump()))
        want = real(plain.resolve_obj(F + '#/x', v, parser=getattr(tab, kind), to_spec_version=to)[0])
        got = real(app.resolve_obj(F + '#/x', v, parser=getattr(tab, kind), to_spec_version=to)[0])
        expect(same(got.dump(), renamed(want.dump())), 'a %s is resolved to %s, although the hook gave another one for %s', kind, short(got.dump()), at)
        if at != to:
            expect(got is real(app.resolve_obj(F + '#/x', v, to_spec_version=to)[0]), 'resolving a %s again gives another object', kind)
        st.trace()


# ------------------------------------------------------------------ versions

U = {'1.2': 'http://h/one.json', '2.0': 'http://h/two.json', '3.0.0': 'http://h/three.json'}
CONTENT = {U['1.2']: {'swaggerVersion': '1.2', 'apis': []}, U['2.0']: {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}},
           U['3.0.0']: {'openapi': '3.0.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}},
           F: {'s': {'title': 's'}, 'i': {'title': 'i', 'version': '1'}, 'bad': {'swagger': '2.0', 'info': []}}, G: {'swagger': '9', 'info': {}}}
CALLS = [('load', '1.2'), ('load', '2.0'), ('load', '3.0.0'), ('migrate', '1.2', '2.0'), ('migrate', '1.2', '3.0.0'), ('migrate', '2.0', '2.0'), ('migrate', '2.0', '3.0.0'), ('migrate', '3.0.0', '3.0.0'),
         ('fragment', '2.0'), ('fragment', '3.0.0'), ('fail', )]


def run_versions(case, st):
    depth, head = case[1], case[2]
    for tail in itertools.product(range(len(CALLS)), repeat=depth - len(head)):
        seq = [CALLS[i] for i in list(head) + list(tail)]
        if not st.state(seq):
            continue
        app = MemApp(copy.deepcopy(CONTENT), None, load=False)
        objs, original, current = {}, app.original_spec_version, app.current_spec_version
        for i, c in enumerate(seq):
            st.trans()
            if c[0] == 'load':
                fresh = c[1] not in objs
                objs[c[1]] = app.load_obj(U[c[1]])
                expect_eq(objs[c[1]].__swagger_version__, c[1], 'version of the document')
                original = c[1] if fresh else app.original_spec_version if app.original_spec_version in (c[1], original) else original
            elif c[0] == 'migrate':
                if c[1] not in objs:
                    objs[c[1]] = app.load_obj(U[c[1]])
                    original = c[1]
                o = app.migrate_obj(objs[c[1]], U[c[1]], c[2])
                expect_eq(o.__swagger_version__, c[2], 'version of what is migrated')
                current = c[2]
            elif c[0] == 'fragment':
                tab = v2 if c[1] == '2.0' else v3
                u = F + '#/s' if c[1] == '2.0' else F + '#/i'
                cls = tab.Schema if c[1] == '2.0' else tab.Info
                o = app.load_obj(u, parser=cls)
                app.migrate_obj(o, u, '3.0.0')
            else:
                for u in (G, F + '#/bad', 'http://h/none.json'):
                    try:
                        app.load_obj(u)
                    except Exception:
                        continue
                    raise Fail('%s is loaded' % u)
            expect_eq([app.original_spec_version, app.current_spec_version], [original, current], 'the versions reported after %s' % (seq[:i + 1], ))
        st.trace()


def cases(tier):
    deep = tier == 'thorough'
    for a in sorted(APIS):
        for to in ('2.0', '3.0.0'):
            for again in (0, 1):
                if ORIGINAL[a] <= to:
                    yield ['api', a, to, again]
    for i, f in enumerate(fragments()):
        for at in ('2.0', '3.0.0'):
            yield ['other', i, at]
    for i in range(len(CALLS)):
        if deep:
            for j in range(len(CALLS)):
                yield ['versions', 4, [i, j]]
        else:
            yield ['versions', 3, [i]]
    for pair in range(len(PAIRS)):
        for way in range(len(WAYS)):
            n, k = (2, 4) if deep else (1, 3)
            for h in itertools.product(range(-1, 2 * k), repeat=2 if deep else 1):
                yield ['graph', pair, way, n, list(h), k]


def run(case, st):
    globals()['run_' + case[0]](case, st)
