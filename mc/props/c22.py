"""C22: members are read and written by their name and by their Python alias alike.

Explored: for each object type of 1.2, 2.0 and 3.0.0 every member with every kind of value (falsy ones, empty containers, objects,
references), alone and with all other members present, absent members, and every sequence of <= k writes through names and aliases; the same
for every object of the full documents as loaded, resolved and migrated by the application.
Oracle: the raw document, object tables from the specifications (spec.py) and the naming rule (snake case; a trailing underscore
for names that are Python keywords or built-ins).
"""
import copy
import itertools
import re
import docs
import gen
import spec
from core import Fail, expect, load_module, same, short
from env import MemApp
from graph import real

ID, LEVEL = 'C22', 'model_checking'
RULE = 'a state is an object with its members after a sequence of writes; a transition is one write through a name or an alias; all names and aliases of the object are read in every state'
BOUNDS = {'quick': 'each member of each type with up to 10 values, alone and among all others; pairs of writes; every object of the full documents of 3 versions and of what they migrate to',
          'thorough': 'also pairs of members over all their values, sequences of 3 writes'}
ASSUMPTIONS = ['null members are treated as absent', 'a member that can be written is written to an object that owns its mapping', 'required members are present']

# names that are keywords or built-ins have aliases with a trailing underscore in these types
UNDERSCORE = {
    '1.2': {'Authorization': 'type', 'Operation': 'type format', 'Parameter': 'type format', 'Property': 'type format', 'Items': 'type format', 'Model': 'id'},
    '2.0': {'Schema': 'type format', 'Parameter': 'type format in', 'Header': 'type format', 'Items': 'type format', 'SecurityScheme': 'type in'},
    '3.0.0': {'Schema': 'type format enum xml not', 'Parameter': 'in', 'SecurityScheme': 'type in', 'ServerVariable': 'enum'}}
IRREGULAR = {'openIdConnectUrl': 'openid_connect_url'}
NO_ALIAS = [('2.0', 'SecurityScheme', 'authorizationUrl'), ('2.0', 'SecurityScheme', 'tokenUrl')]
DEFAULTS = {('2.0', 'Schema', 'required'): [], ('2.0', 'Items', 'collectionFormat'): 'csv', ('2.0', 'Parameter', 'collectionFormat'): 'csv', ('2.0', 'Header', 'collectionFormat'): 'csv'}


def names(version, name, k):
    """what a member can be called by"""
    out = [k]
    snake = IRREGULAR.get(k) or re.sub('[A-Z]', lambda m: '_' + m.group(0).lower(), k.lstrip('$'))
    if snake != k and (version, name, k) not in NO_ALIAS:
        out.append(snake)
    if k in UNDERSCORE[version].get(name, '').split():
        out.append(k + '_')
    return out


def expected(doc, shape, version):
    """the dump of a member, where everything empty is left out"""
    return strip(spec.restrict(doc, shape, version))


def strip(x):
    if isinstance(x, dict):
        x = dict((k, strip(v)) for k, v in x.items())
        return dict((k, v) for k, v in x.items() if v not in ({}, []) or isinstance(v, bool))
    return [strip(v) for v in x] if isinstance(x, list) else x


def bool_inside(x):
    """see C03-bool-true and C03-bool-false: the dump of such objects is wrong already"""
    return any(isinstance(v, bool) and toks and toks[-1] == 'additionalProperties' for toks, v in docs.nodes(x))


def check_object(o, raw, version, name, st, what, order=1):
    tab = spec.TABLES[version][name]
    got = o.get_field_names()
    for k in sorted(tab)[::order]:
        shape = tab[k]
        first = None
        expect(k in got, '%s: %r is not among the names of members', what, k)
        for i, n in enumerate(names(version, name, k)):
            st.trans()
            try:
                v = getattr(o, n)
            except Exception as e:
                raise Fail('%s: reading %s: %s(%s)' % (what, n, type(e).__name__, e))
            if i == 0:
                first = v
                check_value(v, raw, k, shape, version, name, what)
            elif hasattr(v, 'dump') or hasattr(first, 'dump'):
                expect(v is first, '%s: %s is not the object %s is', what, n, k)
            else:
                expect(same(v, first), '%s: %s is %r, %s is %r', what, n, v, k, first)


def check_value(v, raw, k, shape, version, name, what):
    if k not in raw:
        default = DEFAULTS.get((version, name, k))
        expect(not o_is(v) and (v == default or (default is None and v in (None, [], {}))), '%s: %s is %r although it is absent', what, k, v)
        return
    want = raw[k]
    if shape in ('any', 'str') or isinstance(shape, list) and shape[0] == 'bool' and isinstance(want, bool):
        expect(same(v, want), '%s: %s is %s instead of %s', what, k, short(v), short(want))
        return
    if want is None:
        return
    if bool_inside(want):
        return
    d = v.dump() if hasattr(v, 'dump') else v
    expect(same(strip(d), expected(want, shape, version)), '%s: %s is %s instead of %s', what, k, short(d), short(want))


def o_is(v):
    return hasattr(v, 'dump') and bool(v.dump())


def build(version, name, raw):
    return spec.cls(version, name)(copy.deepcopy(raw), path='#')


def cases(tier):
    deep = tier == 'thorough'
    for v in ('1.2', '2.0', '3.0.0'):
        for name in gen.types(v):
            yield ['read', v, name]
            n = 12 if len(spec.TABLES[v][name]) > 12 else 4
            for part in range(n):
                yield ['write', v, name, 2, part, n]
            if deep:
                for part in range(n * 4):
                    yield ['pairs', v, name, part, n * 4]
                    yield ['write', v, name, 3, part, n * 4]
    for v in ('1.2', '2.0', '3.0.0'):
        yield ['doc', v]


def run(case, st):
    globals()['do_' + case[0]](st, *case[1:])
    st.outcome(case[:3])


def do_read(st, version, name):
    for raw in itertools.chain(gen.subsets(version, name, 1), [gen.full(version, name)]):
        read(st, version, name, raw)
    full = gen.full(version, name)
    for i, k in enumerate(sorted(spec.TABLES[version][name])):
        for v in gen.values(version, spec.TABLES[version][name][k], i):
            if k != '$ref':
                read(st, version, name, dict(full, **{k: v}))


def do_pairs(st, version, name, part, n):
    for raw in itertools.islice(gen.subsets(version, name, 2), part, None, n):
        read(st, version, name, raw)


def read(st, version, name, raw):
    st.state([version, name, raw])
    what = '%s of %s %s' % (name, version, short(raw))
    check_object(build(version, name, raw), raw, version, name, st, what)
    check_object(build(version, name, raw), raw, version, name, st, what, -1)
    st.trace()


# ------------------------------------------------------------------ writes

def do_write(st, version, name, depth, part, n):
    tab = spec.TABLES[version][name]
    acts = []
    for i, k in enumerate(sorted(tab)):
        plain = tab[k] in ('any', 'str')
        vals = ['w', 0] if plain else gen.values(version, tab[k], i)[:1]
        if isinstance(tab[k], list) and tab[k][0] == 'bool':
            vals = gen.values(version, tab[k][1], i)[:1]
        for a in names(version, name, k):
            for v in vals:
                acts.append((k, a, v))
    full = gen.full(version, name)
    if depth > 2:       # what can be interesting about three: the same member twice, and its neighbours
        seqs = itertools.islice(((a, b, c) for i, a in enumerate(acts) for b in acts for c in acts if a[0] == c[0] and acts.index(b) - i in (-2, -1, 0, 1, 2, 3)), part, None, n)
    else:
        seqs = itertools.islice(itertools.chain(((a, ) for a in acts), ((a, b) for a in acts for b in acts)), part, None, n)
    for seq in seqs:
        for start in (gen.minimal(version, name), full) if len(seq) < 2 else (full, ):
            write(st, version, name, start, seq, len(seq) < 2)


def write(st, version, name, start, seq, thorough):
    raw = copy.deepcopy(start)
    o = build(version, name, raw)
    tab = spec.TABLES[version][name]
    what = '%s of %s, writing %s' % (name, version, ', '.join('%s = %r' % (a, v) for k, a, v in seq))
    for k, alias, v in seq:
        st.trans()
        new = v
        if tab[k] not in ('any', 'str'):
            new = getattr(build(version, name, {**gen.minimal(version, name), k: copy.deepcopy(v)}), k)
            if not hasattr(new, 'dump'):
                return
        try:
            setattr(o, alias, new)
        except Exception as e:
            # such members can not be written by any name
            try:
                setattr(o, k, new)
            except Exception:
                return
            raise Fail('%s: %s can be written, %s can not: %s(%s)' % (what, k, alias, type(e).__name__, e))
        raw[k] = copy.deepcopy(v)
        for a in names(version, name, k):
            got = getattr(o, a)
            expect(got is new or same(got, new) and not hasattr(new, 'dump'), '%s: %s is %r afterwards', what, a, got)
    st.state([version, name, raw])
    check_object(o, raw, version, name, st, what)
    if not bool_inside(raw):
        expect(same(strip(o.dump()), expected(raw, name, version)), '%s: the dump is %s instead of %s', what, short(o.dump()), short(raw))
    st.trace()


# ------------------------------------------------------------------ documents

def do_doc(st, version):
    url = 'http://h/root.json'
    if version == '1.2':
        c16 = load_module('C16')
        l, a = c16.base()
        l['authorizations'] = {'k': c16.KEY}
        app = MemApp(dict([(c16.ROOT, l)] + [('http://h/d/' + k, v) for k, v in a.items()]), c16.ROOT)
        return compare(st, app.raw, l, 'ResourceListing', version)
    raw = docs.doc2() if version == '2.0' else docs.doc3()
    app = MemApp({url: raw}, url)
    compare(st, app.raw, raw, 'Swagger' if version == '2.0' else 'OpenApi', version)
    if version == '2.0':
        root = app.migrate_obj(app.raw, url, '3.0.0')
        compare(st, root, root.dump(), 'OpenApi', '3.0.0')


def compare(st, root, raw, name, version):
    for toks, kind, r in spec.objects(raw, name, version):
        o = real(root.resolve(list(toks)) if toks else root)
        st.state([version, toks])
        tab = spec.TABLES[version][kind]
        for k in sorted(tab):
            shape = tab[k]
            for n in names(version, kind, k):
                st.trans()
                try:
                    v = getattr(o, n)
                except Exception as e:
                    raise Fail('%s: reading %s: %s(%s)' % (docs.pointer(toks), n, type(e).__name__, e))
                if k in r and shape in ('any', 'str') and k != '$ref':
                    expect(same(v, r[k]), '%s: %s is %r instead of %r', docs.pointer(toks), n, v, r[k])
                elif k in r and k != '$ref':
                    expect(v is getattr(o, k), '%s: %s is not %s', docs.pointer(toks), n, k)
        st.trace()
