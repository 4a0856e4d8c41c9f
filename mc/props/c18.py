"""C18: loading and migrating are pure, repeatable and isolated.

Explored: (1) for a broad family of documents: load, prepare, migrate, migrate again, on two applications that share the caller's
mappings; (2) all sequences of operations up to k on one application; (3) all interleavings of two scripts of calls on two applications
that share mappings; (4) the same documents under several hash seeds. Mappings and objects of the older version are compared with
pristine copies after every step, results with those of an application used for nothing else.
"""
import copy
import hashlib
import itertools
import json
import os
import subprocess
import sys
from props import c08
from props import c09
from props import c10
from props import c11
from props import c17
from props import c03
import docs
import spec
from bisim import Bisim
from core import Fail, canon, expect, expect_eq, same, short, first_diff
from env import BaseApp
from graph import real
from view import view
from pyopenapi.migration.getter import SimpleGetter
from pyopenapi.migration.resolve import Resolver
from pyopenapi.migration.versions.v2_0 import objects as v2
from pyopenapi.migration.versions.v3_0_0 import objects as v3

ID, LEVEL = 'C18', 'model_checking'
RULE = ('a state is a document set with the sequence of operations done so far on one or two applications, a transition is one more operation; '
        'sequences and interleavings are enumerated exhaustively up to the bound')
BOUNDS = {'quick': 'about 1200 document sets (reference graphs, path item graphs, parameters, schemas, single edits) with 8 operations each; all sequences of 3 of up to 7 operations in 3 families; all interleavings of 15 pairs of scripts of 2 or 3 calls; 6 hash seeds',
          'thorough': 'about 30000 document sets; all sequences of 4; all interleavings; 24 hash seeds'}
ASSUMPTIONS = ['callers do not modify their mappings or dumps in the meantime', 'the text of references in migrated documents may depend on which of the documents they name are migrated already (what they carry may not)']

R = c17.R


class Shared(BaseApp):
    """an application that reads the caller's own mappings"""

    def __init__(self, ds, root=R):
        self.ds, self.root_url = ds, root

        def callback(url):
            if url not in ds:
                raise IOError(url)
            return ds[url]
        super(Shared, self).__init__(root, resolver=Resolver(default_getter=type('SharedGetter', (SimpleGetter, ), {'__simple_getter_callback__': callback})))


def unchanged(ds, pristine, what):
    for u in pristine:
        if not same(ds[u], pristine[u]):
            raise Fail('%s changes the mapping %s: %s' % (what, u, first_diff(ds[u], pristine[u])))


# ------------------------------------------------------------------ families

def no_bools(x):
    """dumping boolean additionalProperties is a known finding of C03"""
    if isinstance(x, dict):
        return dict((k, {'type': 'string'} if k == 'additionalProperties' and isinstance(v, bool) else no_bools(v)) for k, v in x.items())
    return [no_bools(v) for v in x] if isinstance(x, list) else x


def family(name, arg):
    for ds, root in documents(name, arg):
        yield no_bools(ds), root


def documents(name, arg):
    """document sets and the version of their root"""
    if name == 'graph':
        mode, places, deep = arg
        for kinds in itertools.product(c10.shapes(2, False)[::1 if deep else 2], repeat=2):
            yield c10.make(kinds, places, mode), c10.R
    elif name == 'place':
        for ds in c10.place_docs(arg):
            yield ds, c10.R
    elif name == 'place2':
        for ds in c10.place2_docs(arg):
            yield ds, c10.R
    elif name == 'items':
        version, places = arg
        n = len(places)
        for nexts in itertools.product([None] + list(range(n)), repeat=n):
            yield c11.make(nexts, places, 3, version), c11.R
    elif name == 'params':
        for k, d in enumerate(c08.documents(arg[0])):
            if k % arg[1] == arg[2]:
                yield {c08.R: d}, c08.R
    elif name == 'doc':
        for k, d in enumerate(c09.documents(arg[0])):
            if k % arg[1] == arg[2]:
                yield {c09.R: d}, c09.R
    elif name == 'edit3':
        doc = docs.doc3()
        todo = [t for t, v in docs.nodes(doc) if len(t) > 1 and not isinstance(v, (dict, list))]
        for i, t in enumerate(todo):
            if i % arg[0] == arg[1]:
                yield {R: docs.edited(doc, t, lambda v: '' if isinstance(v, str) and t[-1] not in ('$ref', 'in') and 'enum' not in t else v)}, R
    elif name == 'full':
        yield {'2.0': {R: docs.doc2()}, '3.0.0': {R: docs.doc3()}, 'two': c17.two(), 'three': c17.three(), 'one': c17.one()}[arg], R
    elif name == 'listing':
        lst, apis = c03.listing()
        todo = [(w, t) for w, d in ((None, lst), ('pet', apis['pet'])) for t, v in docs.nodes(d) if not isinstance(v, (dict, list))]
        for i, (where, t) in enumerate(todo):
            if i % arg[0] == arg[1] and t and t[-1] in TEXTS:
                l = lst if where else docs.edited(lst, t, lambda v: '')
                a = dict(apis, pet=docs.edited(apis['pet'], t, lambda v: '')) if where else apis
                yield dict([(R, l)] + [('http://h/d/' + k, v) for k, v in a.items()]), R


TEXTS = 'description summary notes title termsOfServiceUrl contact license licenseUrl message defaultValue format minimum maximum tokenName keyname url apiVersion uniqueItems'.split()
SCRIPTS = sorted(c17.SCRIPTS)
QUICK = ['1>3', '2 parts', '2>3', '3', '3 parts']


def cases(tier):
    deep = tier == 'thorough'
    for x in ('2.0', '3.0.0', 'two', 'three', 'one'):
        yield ['pure', 'full', x]
    for mode in ('2.0', '3.0.0'):
        for p in c10.PLACES2 if deep else c10.PLACES2[1:3]:
            yield ['pure', 'graph', [mode, p, deep]]
        for p in c11.P3 if deep else c11.P3[5:6]:
            yield ['pure', 'items', [mode, p]]
    for i in range(0, len(c10.PLACES_OF_REF), 1 if deep else 9):
        yield ['pure', 'place', i]
    for i in range(len(c10.REF2)):
        yield ['pure', 'place2', i]
    for k, c in enumerate(c08.cases('quick')):
        if not deep and k % 2:
            continue
        n = {'one': 49, 'pair': 60, 'resp': 12, 'fields': 12, 'override': 6}[c[0]]
        if not deep:
            n *= 4
        for j in range(n) if deep and c[0] != 'pair' else range(3, n, 20) if deep else [(3 + 13 * k) % n]:
            yield ['pure', 'params', [c, n, j]]
    for c in c09.cases('quick'):
        n = {'servers': 40, 'schema': 80, 'nest': 30, 'security': 8, 'doc': 30, 'only': 24}[c[0]]
        for k in range(0, n, 4) if deep else [5 % n][:sum(map(len, map(str, c))) % 3 == 0]:
            yield ['pure', 'doc', [c, n, k]]
    for k in range(8):
        yield ['pure', 'edit3', [8 if deep else 80, k]]
        yield ['pure', 'listing', [8 if deep else 16, k]]
    for f in ('two', 'three', 'one'):
        n = len(OPS[f])
        for i in range(n):
            for j in range(n):
                yield ['ops', f, [i, j], 2 if deep else 1]
    for i, a in enumerate(SCRIPTS):
        for b in SCRIPTS[i:]:
            if deep or a in QUICK and b in QUICK:
                yield ['two', a, b, 5 if deep else 3]
    for k in range(24 if deep else 6):
        yield ['seed', k]


def run(case, st):
    kind = case[0]
    if kind == 'pure':
        for ds, root in family(case[1], case[2]):
            pure(ds, root, st)
    elif kind == 'ops':
        for rest in itertools.product(range(len(OPS[case[1]])), repeat=case[3]):
            ops(case[1], case[2] + list(rest), st)
    elif kind == 'two':
        interleave(case[1], case[2], case[3], st)
    else:
        seed(case[1], st)
    st.outcome(case[:2])


def version_of(d):
    return d.get('swagger') or d.get('openapi') or d.get('swaggerVersion')


def dumps(o):
    """content of an object and, for a 1.2 listing, of its resources; with and without what dump() leaves out"""
    tops = [(o, type(o).__name__)] + [(o.cached_apis[k], 'ApiDeclaration') for k in sorted(getattr(o, 'cached_apis', {}))]
    version = {'ResourceListing': '1.2', 'Swagger': '2.0', 'OpenApi': '3.0.0'}[tops[0][1]]
    return [x.dump() for x, _ in tops] + [view(x, name, version) for x, name in tops]


def pure(ds, root, st):
    pristine = copy.deepcopy(ds)
    version = version_of(ds[root])
    st.state(ds)
    try:
        first = steps(ds, pristine, root, version, True, st)
        second = steps(ds, pristine, root, version, False, st)
        for k in second:
            try:
                Bisim().check(first[k], second[k])
            except Fail as e:
                raise Fail('another application on the same mappings gets another result for %s: %s' % (k, e))
    except Fail as e:
        raise Fail('%s:\n  %s' % (short(pristine, 2500), e))
    st.trace()


def do(what, fn, *a, **k):
    try:
        return fn(*a, **k)
    except Exception as e:
        raise Fail('%s: %s(%s)' % (what, type(e).__name__, e))


def steps(ds, pristine, root, version, again, st):
    app = Shared(ds, root)
    raw = do('loading', app.load_obj, root)
    unchanged(ds, pristine, 'loading')
    before = dumps(raw)
    unchanged(ds, pristine, 'dumping')
    expect(same(dumps(raw), before), 'dumping twice differs')
    out = {'app': None}
    old, name = raw, 'loaded'
    for to in ('2.0', '3.0.0'):
        if version == '3.0.0' and to == '2.0':
            continue
        st.trans()
        new = do('migrating to ' + to, app.migrate_obj, old if again else raw, root, to)
        unchanged(ds, pristine, 'migrating to ' + to)
        if new is not old:
            expect(same(dumps(old), before), 'migrating to %s changes the %s object: %s', to, name, first_diff(dumps(old), before))
        before = dumps(new)
        unchanged(ds, pristine, 'dumping')
        out[to] = new
        if again:
            st.trans()
            twice = do('migrating again to ' + to, app.migrate_obj, old, root, to)
            expect(same(dumps(new), before), 'migrating again to %s changes the first result: %s', to, first_diff(dumps(new), before))
            Bisim().check(new, twice)
            unchanged(ds, pristine, 'migrating again')
            got = do('resolving afterwards', app.resolve_obj, root, version, to_spec_version=to)[0]
            Bisim().check(new, got)
        old, name = new, to
    out['app'] = out.get('2.0', out['3.0.0'])
    KEEP[:] = [KEEP[-1] if KEEP else None, app]
    return out


KEEP = []       # references do not own what they carry

# ------------------------------------------------------------------ sequences of operations

B, E, G = c17.B, c17.E, c17.G
OPS = {
    'two': [('load', ), ('migrate', '2.0'), ('migrate', '3.0.0'), ('resolve', B + '#/definitions/A', 'Schema', '2.0'), ('resolve', B + '#/definitions/A', 'Schema', '3.0.0'), ('resolve', E + '#/i/x~1', 'PathItem', '3.0.0'), ('resolve', G, None, '3.0.0')],
    'three': [('load', ), ('migrate', '3.0.0'), ('resolve', B + '#/components/schemas/A', 'Schema', '3.0.0'), ('resolve', E + '#/i/x~1', 'PathItem', '3.0.0'), ('resolve', E + '#/b', 'RequestBody', '3.0.0'), ('resolve', G, None, '3.0.0')],
    'one': [('load', ), ('migrate', '2.0'), ('migrate', '3.0.0')],
}
ALONE = {}


def apply(app, raw, op, version):
    if op[0] == 'load':
        return app.load_obj(R)
    if op[0] == 'migrate':
        return app.migrate_obj(raw, R, op[1])
    return real(app.resolve_obj(op[1], version, parser=getattr(v3 if version == '3.0.0' else v2, op[2]) if op[2] else None, to_spec_version=op[3])[0])


def fam(name):
    return {'two': c17.two, 'three': c17.three, 'one': c17.one}[name]()


def prepared(app):
    """the root, with its references attached (documents of one version are prepared in place)"""
    raw = app.load_obj(R)
    return raw if version_of(app.ds[R]) == '1.2' else app.migrate_obj(raw, R, version_of(app.ds[R]))


def alone(f, op):
    if (f, op) not in ALONE:
        app = Shared(fam(f))
        raw = prepared(app)
        ALONE[f, op] = apply(app, raw, op, version_of(app.ds[R])), app
    return ALONE[f, op][0]


def ops(f, seq, st):
    ds = fam(f)
    pristine = copy.deepcopy(ds)
    version = version_of(ds[R])
    app = Shared(ds)
    raw = prepared(app)
    got = []
    what = [OPS[f][i] for i in seq]
    try:
        for n, op in enumerate(what):
            st.trans()
            st.state([f, seq[:n + 1]])
            got.append((op, do('operation %s' % (op, ), apply, app, raw, op, version)))
            unchanged(ds, pristine, 'operation %s' % (op, ))
        for op, o in got:
            if op[0] == 'load':
                expect(o is raw, 'loading again gives another object')
            try:
                Bisim(text=False).check(alone(f, op), o)
            except Fail as e:
                raise Fail('operation %s gives another result than alone: %s' % (op, e))
    except Fail as e:
        raise Fail('%s, operations %s\n  %s' % (f, what, e))
    st.trace()


# ------------------------------------------------------------------ two applications

def interleave(a, b, n, st):
    fa, va, sa = c17.SCRIPTS[a]
    fb, vb, sb = c17.SCRIPTS[b]
    sa, sb = sa[:n], sb[:n]
    plain = []
    for f, v, s in ((fa, va, sa), (fb, vb, sb)):
        app, got = Shared(f()), {}
        for i, call in enumerate(s):
            got[i] = c17.perform(app, call, got, v)
        plain.append((app, got))
    for order in itertools.combinations(range(len(sa) + len(sb)), len(sa)):
        da = fa()
        db = da if fa is fb else fb()
        pristine = [copy.deepcopy(da), copy.deepcopy(db)]
        apps, got, at = [Shared(da), Shared(db)], [{}, {}], [0, 0]
        try:
            for k in range(len(sa) + len(sb)):
                w = 0 if k in order else 1
                s, v = ((sa, va), (sb, vb))[w]
                i = at[w]
                at[w] += 1
                st.trans()
                got[w][i] = do('call %s of %d' % (s[i], w), c17.perform, apps[w], s[i], got[w], v)
            for w in (0, 1):
                unchanged((da, db)[w], pristine[w], 'this')
                for i in got[w]:
                    Bisim().check(plain[w][1][i], got[w][i])
        except Fail as e:
            raise Fail('scripts %s and %s on two applications, the first at steps %s\n  %s' % (a, b, order, e))
        st.state([a, b, order])
        st.trace()


# ------------------------------------------------------------------ hash seeds

def results():
    out = []
    todo = [['full', x] for x in ('2.0', '3.0.0', 'two', 'three', 'one')]
    todo += [['place2', i] for i in range(0, len(c10.REF2), 3)] + [['place', i] for i in range(0, len(c10.PLACES_OF_REF), 9)] + [['items', ['2.0', 'rbr']], ['listing', [64, 3]]]
    todo += [['params', [c, 60, 1]] for c in list(c08.cases('quick'))[::6]] + [['doc', [c, 80, 1]] for c in list(c09.cases('quick'))[::12]]
    for name, arg in todo:
        for ds, root in family(name, arg):
            app = Shared(ds, root)
            raw = app.load_obj(root)
            r = [dumps(raw)]
            for to in ('2.0', '3.0.0'):
                if version_of(ds[root]) <= to:
                    r.append(app.migrate_obj(raw, root, to).dump())
            out.append([name, arg, hashlib.sha1(canon(r).encode()).hexdigest()])
    return out


MINE = []


def seed(k, st):
    if not MINE:
        MINE.extend(results())
    env = dict(os.environ, PYTHONHASHSEED=str(k), PYTHONWARNINGS='ignore')
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    code = 'import sys, json; sys.path[:0] = %r; from props import c18; print("RESULT" + json.dumps(c18.results()))' % ([x for x in sys.path if x] + [here], )
    p = subprocess.run([sys.executable, '-c', code], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    out = [x for x in p.stdout.decode().splitlines() if x.startswith('RESULT')]
    expect(out, 'hash seed %d: %s', k, p.stderr.decode()[-500:])
    other = json.loads(out[0][6:])
    expect_eq(len(other), len(MINE), 'documents')
    for a, b in zip(json.loads(json.dumps(MINE)), other):
        st.trans()
        expect(a == b, 'hash seed %d gives another result for %s', k, b[:2])
    st.state(['seed', k])
    st.trace()
