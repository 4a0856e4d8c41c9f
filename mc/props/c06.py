"""C06: the object store answers like a map keyed by URL, pointer and version.

Explored: every operation sequence up to the depth bound over an alphabet of stores and removals with
colliding URLs, pointers and versions.  After every sequence all lookups, listings and newest-version
queries of the alphabet are compared with a plain dictionary model.
"""
import itertools
from core import Fail, expect, expect_eq
from pyopenapi.migration.store import SpecObjStore
from pyopenapi.migration.versions.v2_0 import objects as v2
from pyopenapi.migration.versions.v3_0_0 import objects as v3

ID, LEVEL = 'C06', 'model_checking'
RULE = ('a state is the ordered content of the store reached by a sequence of set / get_under(remove) '
        'operations; a transition is one operation; in each state every query of the alphabet is compared '
        'with the dictionary model')
BOUNDS = {'quick': 'all states within 3 operations of the empty store, 31 operations', 'thorough': 'all states within 4 operations'}
ASSUMPTIONS = ['an object stored under a pointer agrees with any enclosing stored object only by chance: the '
               'closest stored enclosing object answers']

U, UB = 'http://h/a', 'http://h/ab'
V = ['1.2', '2.0', '3.0.0']


def schema2(tag):
    return {'title': tag, 'properties': {'a/b': {'title': tag + '.a/b'}, 'a': {'title': tag + '.a'}, 'a~1': {'title': tag + '.a~1'}},
            'allOf': [{'title': tag + '.0'}, {'title': tag + '.1'}], 'example': {'k': [{'x': tag}]}}


def build():
    """fresh objects: name -> object"""
    o = {}
    names = ['Pet', 'Pets', 'Pe', 'P/t', 'P~1t']
    o['root'] = v2.Swagger({'swagger': '2.0', 'info': {'title': 'root', 'version': '1'},
                            'definitions': dict((n, schema2('root.' + n)) for n in names)}, '#', {})
    o['root2'] = v2.Swagger({'swagger': '2.0', 'definitions': dict((n, schema2('root2.' + n)) for n in names)}, '#', {})
    o['root3'] = v3.OpenApi({'openapi': '3.0.0', 'components': {'schemas': dict((n, schema2('root3.' + n)) for n in names)}}, '#', {})
    o['pet'] = v2.Schema(schema2('pet'), '#/definitions/Pet', {})
    o['pets'] = v2.Schema(schema2('pets'), '#/definitions/Pets', {})
    o['pe'] = v2.Schema(schema2('pe'), 'x', {})
    o['slash'] = v2.Schema(schema2('slash'), 'x', {})
    o['tilde'] = v2.Schema(schema2('tilde'), 'x', {})
    o['prop'] = v2.Schema(schema2('prop'), 'x', {})
    o['prop2'] = v2.Schema(schema2('prop2'), 'x', {})
    o['all1'] = v2.Schema(schema2('all1'), 'x', {})
    o['pet3'] = v3.Schema(schema2('pet3'), 'x', {})
    o['pets3'] = v3.Schema(schema2('pets3'), 'x', {})
    o['info'] = v2.Info({'title': 'info', 'version': '1'}, 'x', {})
    return o


D = '#/definitions/'
S = '#/components/schemas/'
OPS = [('set', 'root', U, '#', '2.0'), ('set', 'pet', U, D + 'Pet', '2.0'), ('set', 'pets', U, D + 'Pets', '2.0'),
       ('set', 'pe', U, D + 'Pe', '2.0'), ('set', 'slash', U, D + 'P~1t', '2.0'), ('set', 'tilde', U, D + 'P~01t', '2.0'),
       ('set', 'prop', U, D + 'Pet/properties/a', '2.0'), ('set', 'prop2', U, D + 'Pet/properties/a~1b', '2.0'),
       ('set', 'all1', U, D + 'Pets/allOf/1', '2.0'), ('set', 'root2', U, '#', '2.0'), ('set', 'root2', UB, '#', '2.0'),
       ('set', 'pets', UB, D + 'Pets', '2.0'), ('set', 'root3', U, '#', '3.0.0'), ('set', 'pet3', U, S + 'Pet', '3.0.0'),
       ('set', 'pets3', U, S + 'Pets', '3.0.0'), ('set', 'pet3', U, D + 'Pet', '3.0.0'), ('set', 'info', U, '#/info', '2.0'),
       ('set', 'pets', U, D + 'Pet', '2.0'), ('set', 'pet', UB, '#', '2.0'),
       ('rm', U, '#', '2.0'), ('rm', U, D + 'Pet', '2.0'), ('rm', U, D + 'Pets', '2.0'), ('rm', U, '#/definitions', '2.0'),
       ('rm', U, D + 'Pe', '2.0'), ('rm', U, D + 'Pet/properties', '2.0'), ('rm', U, D + 'Pet/properties/a', '2.0'),
       ('rm', UB, '#', '2.0'), ('rm', U, '#', '3.0.0'), ('rm', U, S + 'Pet', '3.0.0'), ('rm', U, D + 'P~1t', '2.0'),
       ('route', U)]
KEYS = sorted(set(op[2:5] for op in OPS if op[0] == 'set'))
JPS = ['#', '#/info', '#/definitions', D + 'Pet', D + 'Pets', D + 'Pe', D + 'P~1t', D + 'P~01t', D + 'P', D + 'Petsy',
       D + 'Pet/title', D + 'Pets/title', D + 'Pet/properties', D + 'Pet/properties/a', D + 'Pet/properties/a~1b',
       D + 'Pet/properties/a~01', D + 'Pet/properties/a/title', D + 'Pets/allOf/0', D + 'Pets/allOf/1', D + 'Pets/allOf/1/properties/a~1b',
       D + 'Pet/properties/a~1b/allOf/1', D + 'Pet/example/k/0/x', D + 'P~1t/properties/a', '#/inf', '#/information',
       '#/components/schemas', S + 'Pet', S + 'Pets', S + 'Pet/properties/a', S + 'Pets/allOf/0']
ROUTES = {'#/definitions': '#/components/schemas'}


def cases(tier):
    """breadth-first over the operation sequences; `full` marks the first history reaching a state (what is stored, in which
    order, and what was ever stored); every other history is checked for everything stored, too"""
    depth = 4 if tier == 'thorough' else 3
    start = ((), (), False, frozenset())
    seen = {start}
    frontier = [((), start)]
    yield [True, []]
    for _ in range(depth):
        nxt = []
        for hist, (order, content, routed, ever) in frontier:
            for i, op in enumerate(OPS):
                if op[0] == 'set':
                    k = op[2:5]
                    new = (order if k[:2] in order else order + (k[:2], ),
                           tuple(sorted([c for c in content if c[0] != k] + [(k, op[1])])), routed, ever | {k})
                elif op[0] == 'rm':
                    t = toks(op[2])
                    new = (order, tuple(c for c in content if not (
                        c[0][0] == op[1] and c[0][2] == op[3] and toks(c[0][1])[:len(t)] == t)), routed, ever)
                else:
                    new = (order, content, True, ever)
                h = hist + (i, )
                fresh = new not in seen
                yield [fresh, list(h)]
                if fresh:
                    seen.add(new)
                    nxt.append((h, new))
        frontier = nxt


def toks(jp):
    return [t.replace('~1', '/').replace('~0', '~') for t in jp.split('/')]


def walk(obj, names):
    for n in names:
        if isinstance(obj, list) or (hasattr(obj, 'append') and not isinstance(obj, dict)):
            try:
                obj = obj[int(n)]
            except (ValueError, IndexError):
                return NOTHING
        elif hasattr(obj, 'keys'):
            if n not in obj.keys():
                return NOTHING
            obj = obj[n]
        elif hasattr(obj, 'get_field_names'):
            if n not in obj.get_field_names():
                return NOTHING
            obj = getattr(obj, n)
        else:
            return NOTHING
        if obj is None:
            return NOTHING
    return obj


NOTHING = object()
OBJS = {}


class Model(object):
    def __init__(self):
        self.m = {}
        self.order = []
        self.routed = False

    def get(self, url, jp, ver):
        t = toks(jp)
        best = None
        for (u, p, v), o in self.m.items():
            if u == url and v == ver:
                pt = toks(p)
                if t[:len(pt)] == pt and (best is None or len(pt) > len(best[0])):
                    best = (pt, o)
        if best is None:
            return NOTHING
        return walk(best[1], t[len(best[0]):])

    def under(self, url, jp, ver):
        t = toks(jp)
        out = {}
        for (u, p, v), o in self.m.items():
            if u == url and v == ver and toks(p)[:len(t)] == t:
                out[p[len(jp) + 1:]] = o
        return out

    def relocate(self, url, jp, from_, to):
        if url == U and self.routed and V.index(from_) < 2 <= V.index(to):
            t = toks(jp)
            if t[:2] == ['#', 'definitions']:
                return '#/components/schemas' + jp[len('#/definitions'):]
        return jp

    def until(self, url, jp, ver, until):
        last = V.index(until) if until else len(V) - 1
        for i in range(last, V.index(ver) - 1, -1):
            p = self.relocate(url, jp, ver, V[i])
            o = self.get(url, p, V[i])
            if o is not NOTHING:
                return o, p, V[i]
        return NOTHING, None, None


def real_get(store, url, jp, ver):
    try:
        o = store.get(url, jp, ver)
    except Exception:
        return NOTHING
    return NOTHING if o is None else o


def agree(got, want, what):
    if want is NOTHING:
        if got is not NOTHING and got is not None:
            raise Fail('%s: expected nothing, got %r (%s)' % (what, got, getattr(got, 'title', '')))
    elif not (got is want or (isinstance(want, (str, int)) and got == want)):
        raise Fail('%s: expected %r (%s), got %r (%s)' % (
            what, want, getattr(want, 'title', ''), got, getattr(got, 'title', '')))


def run(case, st):
    full, case = case
    objs = OBJS or OBJS.update(build()) or OBJS
    store = SpecObjStore(migratable_spec_versions=list(V))
    model = Model()
    log = []
    for i in case:
        op = OPS[i]
        log.append(op)
        st.trans()
        if op[0] == 'set':
            _, name, url, jp, ver = op
            store.set(objs[name], url, jp, ver)
            model.m[(url, jp, ver)] = objs[name]
            if (url, jp, ver) not in model.order:
                model.order.append((url, jp, ver))
        elif op[0] == 'rm':
            _, url, jp, ver = op
            want = model.under(url, jp, ver)
            got = store.get_under(url, jp, ver, remove=True) or {}
            check_under(got, want, 'after %r: remove under %s' % (log, jp))
            for k in [k for k, o in model.m.items() if any(o is w for w in want.values()) and k[0] == url and k[2] == ver
                      and k[1][len(jp) + 1:] in want and toks(k[1])[:len(toks(jp))] == toks(jp)]:
                del model.m[k]
                model.order.remove(k)
        else:
            store.update_routes(U, '3.0.0', dict(ROUTES))
            model.routed = True
    st.state([model.order, sorted((k, [n for n in objs if objs[n] is o]) for k, o in model.m.items()), model.routed])
    for url, jp, ver in KEYS:
        agree(real_get(store, url, jp, ver), model.get(url, jp, ver), 'after %r: get(%s, %s, %s)' % (log, url, jp, ver))
    for url, ver in ((U, '2.0'), (U, '3.0.0'), (UB, '2.0')):
        check_under(store.get_under(url, '#', ver, remove=False) or {}, model.under(url, '#', ver), 'after %r: get_under(%s, #, %s)' % (log, url, ver))
    if not full:
        return
    for url in (U, UB, 'http://h'):
        for ver in V[1:]:
            for jp in JPS:
                if ver == '3.0.0' and url != U:
                    continue
                got = real_get(store, url, jp, ver)
                want = model.get(url, jp, ver)
                agree(got, want, 'after %r: get(%s, %s, %s)' % (log, url, jp, ver))
                st.outcome([url, jp, ver, getattr(want, 'title', want is NOTHING)])
    st.trace()
    for url, jp, ver in ((U, '#', '2.0'), (U, D + 'Pet', '2.0'), (U, D + 'Pe', '2.0'), (U, '#/definitions', '2.0'),
                         (U, D + 'P', '2.0'), (UB, '#', '2.0'), (U, S + 'Pet', '3.0.0'), (U, '#', '3.0.0'), (U, '#', '1.2'),
                         (U, D + 'Pet/properties/a', '2.0')):
        check_under(store.get_under(url, jp, ver, remove=False) or {}, model.under(url, jp, ver),
                    'after %r: get_under(%s, %s, %s)' % (log, url, jp, ver))
    for url, jp, ver, until in ((U, D + 'Pet', '2.0', None), (U, D + 'Pets', '2.0', '3.0.0'), (U, D + 'Pet', '2.0', '2.0'),
                                (U, '#', '2.0', None), (U, D + 'Pe', '2.0', None), (UB, D + 'Pets', '2.0', None),
                                (U, D + 'Pet', '1.2', None), (U, S + 'Pet', '3.0.0', None), (U, '#/info', '2.0', '3.0.0'),
                                (U, '#/info', '1.2', '2.0')):
        wo, wp, wv = model.until(url, jp, ver, until)
        what = 'after %r: get_until(%s, %s, %s, until=%s)' % (log, url, jp, ver, until)
        try:
            o, p, v = store.get_until(url, jp, ver, until=until)
        except Exception:
            # walking into an enclosing object that lacks the node may also be reported as an error
            if wo is NOTHING or wv != max(V[V.index(ver):V.index(until or V[-1]) + 1]):
                continue
            raise Fail('%s: raised' % what)
        agree(NOTHING if o is None else o, wo, what)
        expect_eq([p, v], [wp, wv], what)


def check_under(got, want, what):
    if sorted(got) != sorted(want):
        raise Fail('%s: expected keys %r, got %r' % (what, sorted(want), sorted(got)))
    for k in want:
        agree(got[k], want[k], what + ' key %r' % k)
