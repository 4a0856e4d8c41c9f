"""C14: after any edits, all views of an object tree agree.

Explored: every sequence of <= k edits (attach / set a child, add / replace a map entry, append / extend a list, merge children, write
a field or an attribute) at three levels of a 2.0 and a 3.0 tree, with the views read after every edit or only at the end.
Oracle: a plain model of nodes (members, ordered elements, shared sub-trees) executing the same edits.
"""
import copy
import itertools
import docs
import spec
from core import Fail, expect, expect_eq, short
from pyopenapi.migration.scan import scan, Dispatcher
from pyopenapi.migration.spec.attr import AttributeGroup

ID, LEVEL = 'C14', 'model_checking'
RULE = ('a state is the model tree after a sequence of edits; a transition is one edit executed on the real objects and on the model; '
        'all views of all nodes are compared afterwards')
BOUNDS = {'quick': 'all sequences of <= 3 of 16 edits, views read after each edit or at the end only', 'thorough': 'the same, <= 4 edits'}
ASSUMPTIONS = ['removal of entries and reassignment through private names are not public operations',
               'child listing of maps may use plain or pointer-encoded names']


class Node(object):
    def __init__(self, kind, cls, fields, kids, real):
        self.kind, self.cls, self.fields, self.kids, self.real = kind, cls, fields, kids, real
        self.attrs = {}

    def items(self):
        return list(enumerate(self.kids)) if self.kind == 'list' else list(self.kids.items())

    def empty(self):
        return self.kind != 'obj' and not self.kids


def build(raw, shape, version, real):
    if isinstance(shape, list):
        if shape[1] in ('str', 'any'):
            return Node(shape[0], None, {}, copy.deepcopy(raw), real)
        if shape[0] == 'list':
            return Node('list', None, {}, [build(x, shape[1], version, real[i]) for i, x in enumerate(raw)], real)
        return Node('map', None, {}, dict((k, build(x, shape[1], version, real[k])) for k, x in raw.items()), real)
    name = spec.kind_of(raw, shape)
    tab = spec.TABLES[version][name]
    if tab is None:
        return build(raw, ['map', 'PathItem'], version, real)
    n = Node('obj', name, {}, {}, real)
    for k, v in raw.items():
        if tab[k] in ('any', 'str'):
            n.fields[k] = v
        else:
            n.kids[k] = build(v, tab[k], version, getattr(real, k))
    return n


def make(version, name, raw):
    return build(raw, name, version, spec.cls(version, name)(copy.deepcopy(raw), '#'))


BASE = {'3.0.0': ('PathItem', {'get': {'operationId': 'g', 'tags': ['t'], 'parameters': [{'name': 'n', 'in': 'query', 'schema': {'title': 's'}}],
                                      'responses': {'a/b': {'description': 'd', 'headers': {'h': {'schema': {'items': {'$ref': '#/x'}}}}}},
                                      'callbacks': {'c~': {'u/1': {'put': {'responses': {}}}}}, 'servers': []}}),
        '2.0': ('PathItem', {'get': {'operationId': 'g', 'tags': ['t'], 'parameters': [{'name': 'n', 'in': 'body', 'schema': {'title': 's'}}],
                                    'responses': {'a/b': {'description': 'd', 'headers': {'h': {'items': {'items': {}}}}, 'schema': {'$ref': '#/x'}}},
                                    'security': []}})}


def put_child(n, name, kid, how):
    if how == 'attach':
        n.real.attach_child(name, kid.real)
    else:
        setattr(n.real, name, kid.real)
    n.kids[name] = kid


def put(n, key, kid):
    n.real[key] = kid.real
    n.kids[key] = kid


def push(n, kids, how):
    if how == 'append':
        n.real.append(kids[0].real)
        n.kids.append(kids[0])
    else:
        n.real.extend([k.real for k in kids])
        n.kids.extend(kids)


def merge(n, m, version):
    n.real.merge_children(m.real)
    for k, kid in m.kids.items():
        if (k not in n.kids or n.kids[k].empty()) and not kid.empty():
            n.kids[k] = kid


class Group(AttributeGroup):
    __attributes__ = {'x': dict(), 'y': dict(default=7)}


class Group2(AttributeGroup):
    __attributes__ = {'x': dict(default=9)}


def set_attr(n, ns, cls, name, val):
    setattr(n.real.get_attrs(ns, cls), name, val)
    n.attrs.setdefault(ns, {})[name] = val


def ops(version):
    """name, function(root model) - raises KeyError/IndexError when it does not apply"""
    three = version == '3.0.0'
    P = {'name': 'q', 'in': 'query'}
    H = {'schema': {'title': 'hh'}} if three else {'type': 'string'}
    RESP = {'description': 'r', 'headers': {'z/': H}}
    PI = {'get': {'parameters': [dict(P)], 'responses': {'m~n': {'$ref': '#/y'}}}, 'parameters': [dict(P)], 'put': {'responses': {'p': RESP}}}
    k = lambda n: n.kids
    get = lambda r: k(r)['get']
    par = lambda r: k(get(r))['parameters']
    rsp = lambda r: k(get(r))['responses']
    lst = [
        ('param append', lambda r: push(par(r), [make(version, 'Parameter', P)], 'append')),
        ('param extend', lambda r: push(par(r), [make(version, 'Reference', {'$ref': '#/e'}), make(version, 'Parameter', P)], 'extend')),
        ('resp replace', lambda r: put(rsp(r), 'a/b', make(version, 'Response', RESP))),
        ('resp add', lambda r: put(rsp(r), '~1', make(version, 'Reference', {'$ref': '#/z'}))),
        ('header add', lambda r: put(k(k(rsp(r))['a/b'])['headers'], 'n/', make(version, 'Header', H))),
        ('put attach', lambda r: put_child(r, 'put', make(version, 'Operation', {'parameters': [], 'responses': {'x': RESP}}), 'attach')),
        ('get set', lambda r: put_child(r, 'get', make(version, 'Operation', {'parameters': [dict(P)], 'responses': {'a/b': RESP}}), 'set')),
        ('merge root', lambda r: merge(r, make(version, 'PathItem', PI), version)),
        ('merge get', lambda r: merge(get(r), make(version, 'Operation', {'parameters': [dict(P)], 'security': [{'a': []}], 'tags': ['u'],
                                                                         'externalDocs': {'url': 'u'}, 'responses': {'x': RESP}}), version)),
        ('ref write', lambda r: write_ref(k(rsp(r))['~1'], '#/new')),
        ('attr get a', lambda r: set_attr(get(r), 'a', Group, 'x', 1)),
        ('attr get b', lambda r: set_attr(get(r), 'b', Group2, 'x', 2)),
        ('attr param a', lambda r: set_attr(k(par(r))[0], 'a', Group, 'y', 3)),
    ]
    if three:
        cb = lambda r: k(get(r))['callbacks']
        lst += [
            ('callback entry', lambda r: put(k(cb(r))['c~'], 'v', make(version, 'PathItem', PI))),
            ('callback add', lambda r: put(cb(r), 'd/', make(version, 'Callback', {'w': {'put': {'parameters': [dict(P)], 'responses': {}}}}))),
            ('body attach', lambda r: put_child(get(r), 'requestBody', make(version, 'RequestBody', {'content': {'x/y': {'schema': {'title': ''}}}}), 'attach')),
        ]
    else:
        lst += [
            ('schema attach', lambda r: put_child(k(k(rsp(r))['a/b']), 'schema', None, '') if False else
             put_child(k(rsp(r))['a/b'], 'schema', make(version, 'Schema', {'properties': {'p/q': {'items': {'title': ''}}}}), 'attach')),
            ('schema prop', lambda r: put(k(k(k(rsp(r))['a/b'])['schema'])['properties'], 'n', make(version, 'Schema', {'allOf': [{}]}))),
            ('docs set', lambda r: put_child(get(r), 'externalDocs', make(version, 'ExternalDocumentation', {'url': 'u'}), 'set')),
        ]
    return lst


def write_ref(n, val):
    n.real.ref = val
    n.fields['$ref'] = val


def cases(tier):
    n = 4 if tier == 'thorough' else 3
    for v in ('2.0', '3.0.0'):
        m = len(ops(v))
        for i in range(m):
            for j in range(m):
                yield [v, n, i, j]


def run(case, st):
    v, n, i, j = case
    m = len(ops(v))
    seqs = [[i, j] + list(rest) for d in range(n - 1) for rest in itertools.product(range(m), repeat=d)]
    if j == 0:
        seqs.append([i])
    for seq in seqs:
        for every in (True, False):
            explore(st, v, seq, every)


def explore(st, v, seq, every):
    name, raw = BASE[v]
    root = make(v, name, raw)
    table = ops(v)
    hist = {}
    done = []
    if every:
        check(st, v, root, hist, done)
    for o in seq:
        try:
            table[o][1](root)
        except (KeyError, IndexError) as e:
            if isinstance(e, KeyError) and e.args and e.args[0] in ('headers', '~1', 'callbacks', 'c~', 'schema', 'properties') or isinstance(e, IndexError):
                return          # does not apply in this state
            raise
        done.append(table[o][0])
        st.trans()
        if every:
            check(st, v, root, hist, done)
    if not every:
        check(st, v, root, hist, done)
    st.trace()


def dump(n):
    if n.kind == 'obj':
        d = dict((k, v) for k, v in n.fields.items() if v is not None)
        for k, kid in n.kids.items():
            if not kid.empty():
                d[k] = dump(kid)
        return d
    if n.kind == 'list':
        return [dump(x) if isinstance(x, Node) else x for x in n.kids]
    return dict((k, dump(x) if isinstance(x, Node) else x) for k, x in n.kids.items())


def below(n):
    """(tokens, node) of the nearest objects below"""
    for key, kid in n.items():
        if not isinstance(kid, Node):
            continue
        if kid.kind == 'obj':
            yield (str(key), ), kid
        else:
            for t, x in below(kid):
                yield (str(key), ) + t, x


def check(st, v, root, hist, done):
    what = 'after %s on the %s tree' % (done, v)
    model = dump(root)
    st.state([v, model])
    expect_eq(root.real.dump(), model, 'dump ' + what)
    seen = []
    stack = [((), root)]
    while stack:
        toks, n = stack.pop()
        seen.append((docs.pointer(toks), n.real))
        node_views(st, n, toks, what, hist)
        stack += [(toks + t, x) for t, x in below(n)]
        for key, kid in n.items():
            if isinstance(kid, Node) and kid.kind != 'obj':
                containers(st, kid, toks + (str(key), ), what, hist)
        expect(root.real.resolve(list(toks)) is n.real, 'looking up %s %s gives another object', toks, what)
    got = []

    class Rec(object):
        class Disp(Dispatcher):
            pass

    @Rec.Disp.register([spec.cls(v, t) for t in CLASSES[v]])
    def h(self, path, obj):
        got.append((path, obj))
    scan(route=[Rec()], root=root.real)
    a, b = sorted((p, id(o)) for p, o in got), sorted((p, id(o)) for p, o in seen)
    if a != b:
        raise Fail('traversal %s visits %s, the tree has %s' % (what, sorted(p for p, _ in got), sorted(p for p, _ in seen)))


CLASSES = dict((v, [t for t in spec.TABLES[v] if spec.TABLES[v][t] is not None]) for v in ('2.0', '3.0.0'))


def containers(st, n, toks, what, hist):
    r = n.real
    expect(len(r) == len(n.kids), 'length of %s %s is %d, expected %d', toks, what, len(r), len(n.kids))
    if n.kind == 'list':
        for i, (x, y) in enumerate(zip(r, n.kids)):
            w = y.real if isinstance(y, Node) else y
            expect((x is w or x == w and not isinstance(y, Node)) and r[i] is x, 'element %d of %s %s', i, toks, what)
    else:
        want = dict((k, x.real if isinstance(x, Node) else x) for k, x in n.kids.items())
        expect_eq(sorted(r.keys()), sorted(want), 'keys of %s %s' % (toks, what))
        expect_eq(sorted(r.iterkeys()), sorted(want), 'iterkeys of %s %s' % (toks, what))
        for view in (dict(r.items()), dict(r.iteritems()), dict((k, r[k]) for k in want), dict((k, r.get(k)) for k in want)):
            expect(set(view) == set(want) and all(view[k] is want[k] for k in want), 'entries of %s %s: %s', toks, what, sorted(view))
        expect(sorted(map(id, r.itervalues())) == sorted(map(id, want.values())), 'values of %s %s', toks, what)
        for k in list(want) + ['none', 'a', 'n']:
            expect((k in r) == (k in want), 'membership of %r in %s %s', k, toks, what)
        expect(r.get('none', 5) == 5, 'default of get')
    expect_eq(r.dump(), dump(n), 'dump of %s %s' % (toks, what))
    listing(st, n, toks, what, hist)
    for key, kid in n.items():
        if isinstance(kid, Node) and kid.kind != 'obj':
            containers(st, kid, toks + (str(key), ), what, hist)


def node_views(st, n, toks, what, hist):
    r = n.real
    for k, kid in n.kids.items():
        expect(getattr(r, k) is kid.real, 'member %s of %s %s is another object', k, toks, what)
    for k, val in n.fields.items():
        expect_eq(getattr(r, k), val, 'member %s of %s %s' % (k, toks, what))
    for ns in ('a', 'b', 'c'):
        g = r.get_attrs(ns)
        w = n.attrs.get(ns)
        if w is None:
            expect(g is None, 'attributes %r appeared on %s %s', ns, toks, what)
        else:
            cls = Group if ns == 'a' else Group2
            expect(type(g) is cls, 'attribute group of %s %s', toks, what)
            for name in ('x', 'y') if ns == 'a' else ('x', ):
                expect_eq(getattr(g, name), w.get(name, {('a', 'y'): 7, ('b', 'x'): 9}.get((ns, name))), 'attribute %s.%s of %s %s' % (ns, name, toks, what))
    listing(st, n, toks, what, hist)


def listing(st, n, toks, what, hist):
    """child listing: pointers relative to the node -> nearest objects"""
    got = n.real.get_children()
    want = dict((docs.pointer(t)[2:], x.real) for t, x in below(n))
    plain = dict((t[0], x.real) for t, x in below(n) if len(t) == 1) if n.kind != 'obj' else {}
    ok = set(map(id, got.values())) == set(map(id, want.values())) and len(got) == len(want)
    if not ok:
        msg = 'children listed for %s %s: %s, expected %s' % (docs.pointer(toks), what, sorted(got), sorted(want))
        before = hist.setdefault('listed', {})
        if before and all(id(o) in before or id(o) in set(map(id, want.values())) for o in got.values()):
            st.finding('C14-stale-listing', msg)
            return
        raise Fail(msg)
    hist.setdefault('listed', {}).update((id(o), o) for o in got.values())
    for k, o in got.items():
        if k in want and want[k] is o or k in plain and plain[k] is o:
            continue
        t = [t for t, x in below(n) if x.real is o][0]
        msg = 'child %s of %s %s is listed as %r' % (docs.pointer(t)[2:], docs.pointer(toks), what, k)
        if len(t) > (2 if n.kind == 'obj' else 1):
            st.finding('C14-nested-listing', msg)
        else:
            raise Fail(msg)
