"""C04: every JSON pointer addresses exactly its own node.

Explored: every addressable node of full documents and of their single-place variants (every map widened by names full of
separators and prefixes of each other, every list lengthened beyond ten elements, every member emptied), looked up through the
application (absolute and local reference) and by walking the tree, plus every pointer one edit away that addresses nothing.
Oracle: the raw document walked token by token, object tables from the specifications (spec.places).
"""
import copy
import json
import weakref
import docs
import gen
import spec
from core import Fail, expect, same, short
from env import MemApp
from props.c03 import agree

ID, LEVEL = 'C04', 'model_checking'
RULE = ('a state is (document, loaded or migrated, pointer); every pointer to a node must yield that node, the same object each time, '
        'a different object for a different pointer, with the enclosing node as parent; every pointer to nothing must be an error')
BOUNDS = {'quick': 'all nodes of the 2.0, 3.0 and 2.0-to-3.0 base documents and of every variant with one container edited; 14 kinds of dead pointers per node',
          'thorough': 'the same with pairs of edited containers and one variant per name'}
ASSUMPTIONS = ['null members are treated as absent', 'specification extensions (x-) are not addressable']
URL = 'http://h/root.json'
ROOT = {'2.0': 'Swagger', '3.0.0': 'OpenApi'}
DOC = {'2.0': docs.doc2, '3.0.0': docs.doc3}
WIDE = [n for n in gen.NAMES if n not in ('$ref', )]


def containers(v):
    return [(t, k) for t, k, raw, _ in spec.places(DOC[v](), ROOT[v], v) if k in ('list', 'map') and raw]


def variant(v, doc, toks, kind, how):
    def fn(x):
        x = copy.deepcopy(x)
        if kind == 'list':
            if how == 'wide':
                x += [copy.deepcopy(x[0]) for _ in range(12 - len(x))]
            elif how == 'empty':
                x = []
            return x
        sample = x[sorted(x)[0]]
        if how == 'wide':
            for n in [w for w in WIDE if not (toks == ['paths'] and w.startswith('x-'))]:
                x.setdefault(n, copy.deepcopy(sample))
            for n in list(x):
                x.setdefault(n + '/b', copy.deepcopy(sample))
                x.setdefault(n[:-1] or 'q', copy.deepcopy(sample))
        elif how == 'empty':
            x = {}
        else:
            x.setdefault(how, copy.deepcopy(sample))
        return x
    return docs.edited(doc, toks, fn)


def cases(tier):
    deep = tier == 'thorough'
    for v in ('2.0', '3.0.0'):
        for mode in ('raw', 'same'):
            yield [v, mode, [], deep]
        cs = containers(v)
        for i in range(len(cs)):
            for how in ['wide', 'empty'] + (WIDE if tier == 'thorough' and cs[i][1] == 'map' else []):
                for mode in ('raw', 'same'):
                    if how == 'empty' and mode == 'same':
                        continue            # may leave references dangling
                    yield [v, mode, [[i, how]], deep]
        if tier == 'thorough':
            for i in range(len(cs)):
                for j in range(i + 1, len(cs)):
                    if cs[j][0][:len(cs[i][0])] != cs[i][0] and (i * 31 + j) % 3 == 0:
                        yield [v, 'raw', [[i, 'wide'], [j, 'wide']], deep]
    cs = containers('2.0')
    yield ['2.0', 'up', [], deep]
    for i in range(len(cs)):
        yield ['2.0', 'up', [[i, 'wide']], deep]


def real(x):
    return x.get_parent.__self__ if isinstance(x, weakref.ProxyTypes) else x


def is_node(x):
    return hasattr(x, 'get_parent')


def run(case, st):
    v, mode, edits, deep = case
    doc = DOC[v]()
    cs = containers(v)
    for i, how in edits:
        doc = variant(v, doc, cs[i][0], cs[i][1], how)
    try:
        app = MemApp({URL: doc}, URL, to={'raw': None, 'same': v, 'up': '3.0.0'}[mode])
    except Exception as e:
        raise Fail('a valid document does not load: %s(%s)' % (type(e).__name__, e))
    root = app.root if app.root is not None else app.raw
    if mode == 'up':
        v, doc = '3.0.0', json.loads(json.dumps(root.dump()))
    places = list(spec.places(doc, ROOT[v], v))
    seen, byptr = {}, {}
    key = docs.pointer
    focus = [cs[i][0] for i, _ in edits] if mode != 'up' else []
    near = 3 if len(edits) == 1 and deep is False else 99
    kinds = dict((key(p[0]), p[1]) for p in places)

    def off(toks):
        """far from the edited containers, or deep below them: covered by the case without edits"""
        return focus and not any(toks == f[:len(toks)] or toks[:len(f)] == f and len(toks) <= len(f) + near for f in focus)
    for toks, kind, raw, parent in places:
        if raw is None or off(toks):
            continue
        st.state([case, toks])
        jp = docs.pointer(toks)
        got = []
        for ref in (URL + jp, jp):
            st.trans()
            try:
                x, where = app.resolve_obj(ref, from_spec_version=v)
            except Exception as e:
                msg = '%s is in the document but does not resolve: %s(%s)' % (ref, type(e).__name__, e)
                if kind == 'any' and in_container(toks, kinds):
                    st.finding('C04-plain-in-container', msg)
                    continue
                raise Fail(msg)
            got.append(real(x))
        try:
            got.append(root.resolve(list(toks)))
        except Exception as e:
            msg = '%s is in the document but walking fails: %s(%s)' % (jp, type(e).__name__, e)
            if not (kind == 'any' and in_container(toks, kinds)):
                raise Fail(msg)
            st.finding('C04-plain-in-container', msg)
        if kind == 'any':
            for g in got:
                expect(same(g, raw), '%s yields %s, the document holds %s', jp, short(repr(g)), short(raw))
            continue
        o = got[0]
        for g in got:
            expect(g is o, '%s yields different objects for the same pointer', jp)
            expect(is_node(g), '%s yields %s, not a node of the tree', jp, short(repr(g)))
        agree(o.dump(), raw, spec_shape(kind, raw, v, doc, toks), v, list(toks))
        if kind not in ('list', 'map'):
            if spec.TABLES[v][kind] is not None:
                expect(type(o) is spec.cls(v, kind), '%s yields a %s instead of a %s', jp, type(o).__name__, kind)
        prev = seen.setdefault(id(o), (toks, o))
        expect(prev[0] == toks, 'the same object stands for %s and %s', key(prev[0]), jp)
        byptr[key(toks)] = o
        p = o.get_parent()
        if parent is None:
            expect(p is None, 'the root has a parent')
        elif p is None and not raw and kind in ('list', 'map'):
            st.finding('C04-empty-parent', 'the empty container at %s has no parent' % jp)
        else:
            expect(p is byptr[key(parent)], 'the parent of %s is not the node at %s', jp, key(parent))
    st.trace()
    dead = set()
    every = set(key(p[0]) for p in places)
    for toks, kind, raw, parent in places:
        if mode == 'up' and edits and not deep or off(toks) or focus and len(toks) > max(len(f) for f in focus) + 1:
            continue
        for t, cat in dead_of(toks, kind, raw, v):
            jp = key(t)
            if jp in every or jp in dead:
                continue
            dead.add(jp)
            st.state([case, jp])
            st.trans()
            try:
                x, _ = app.resolve_obj(URL + jp, from_spec_version=v)
            except Exception:
                pass
            else:
                known_dead(st, cat, '%s addresses nothing but resolves to %s' % (jp, short(repr(x), 200)))
            try:
                x = root.resolve(list(t))
            except Exception:
                continue
            if x is not None:
                known_dead(st, cat, '%s addresses nothing but walking yields %s' % (jp, short(repr(x), 200)))


def in_container(toks, kinds):
    """a plain value that is an element of a loaded list or map (or part of such an element)"""
    for n in range(len(toks), 0, -1):
        up = kinds.get(docs.pointer(toks[:n - 1]))
        if up in ('list', 'map'):
            return True
        if up != 'any':
            return False
    return False


def known_dead(st, cat, msg):
    if cat is None:
        raise Fail(msg)
    st.finding('C04-dead-' + cat, msg)


def spec_shape(kind, raw, v, doc, toks):
    """the shape of a container is found through its owner"""
    if kind not in ('list', 'map'):
        return kind if spec.TABLES[v][kind] is not None else ['map', 'PathItem']
    shape = ROOT[v]
    cur = doc
    for t in toks:
        if isinstance(shape, list):
            if shape[0] == 'bool':
                shape = shape[1]
            else:
                shape = shape[1]
                cur = cur[int(t)] if isinstance(cur, list) else cur[t]
                continue
        name = spec.kind_of(cur, shape)
        shape = spec.TABLES[v][name][t] if spec.TABLES[v][name] is not None else 'PathItem'
        cur = cur[t]
    return shape


PY = ['spec', 'compare', 'dump', 'children', 'resolve', 'override', '__class__', 'get_path', 'attrs', 'keys', 'get', 'items_', 'all_of',
      'external_docs', 'ref', 'type_', 'additional_properties', 'base_path']


def dead_of(toks, kind, raw, v):
    """(tokens, None | how the recorded defects treat it)"""
    t = list(toks)
    index = [('-1', 'index'), ('01', 'index'), ('1e0', None), ('+0', 'index'), (' 0', 'index'), ('', None), ('-', None), ('0x', None),
             ('1_0', 'index'), (u'\u0660', 'index'), (str(10 ** 20), None)]
    if kind == 'list' or isinstance(raw, list):
        for i, c in [(str(len(raw)), None)] + index:
            yield t + [i], c
    elif kind == 'map' or isinstance(raw, dict):
        for i in ['no-such', ''] + (PY if kind != 'any' else ['spec']):
            if i not in raw:
                yield t + [i], 'python-name' if i in PY and kind not in ('map', 'any') else None
        for i in raw:
            for j in (i + 'x', i[:-1], docs.esc(i), i.upper(), i + '/'):
                if j != i and j not in raw:
                    yield t + [j], None
        if kind not in ('map', 'any') and spec.TABLES[v][kind] is not None:
            for m in spec.TABLES[v][kind]:
                if m not in raw:
                    default = v == '2.0' and m in ('required', 'collectionFormat') or v == '3.0.0' and (kind, m) in (('Header', 'in'), )
                    yield t + [m], 'default' if default else None
                    yield t + [m, '0'], 'default' if default else None
    else:
        yield t + ['0'], 'below-plain'
        yield t + ['upper'], 'below-plain'
