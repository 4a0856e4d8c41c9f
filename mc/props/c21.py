"""C21: a document loaded after parts of it were resolved contains those very parts.

Explored: all ordered choices of up to k parts of a document (nested in one another, siblings, list elements, names with escaped
characters, names that are prefixes of others) x the way they were obtained (loaded, resolved, referred to by another document) x
how the whole is loaded afterwards (keeping or removing the parts from the cache). Each part then has to be the object at its
pointer in the whole, a repeated resolution gives it again, its parent is the enclosing container, references carry the objects of
the whole, and everything has the content of the source.
"""
import copy
import itertools
import docs
import gc
from core import Fail, expect, expect_eq, short
from docs import pointer, walk
from env import MemApp
from graph import Graph, real
from pyopenapi.migration.versions.v2_0 import objects as v2
from pyopenapi.migration.versions.v3_0_0 import objects as v3

ID, LEVEL = 'C21', 'model_checking'
RULE = ('a state is the sequence of parts obtained so far on one application, a transition is one more part or the load of the whole; '
        'sequences without repetition are enumerated exhaustively up to the bound')
BOUNDS = {'quick': 'all ordered choices of up to 2 of 19 parts, of 3 of 7 nested ones; 4 ways, keeping and removing',
          'thorough': 'all ordered choices of up to 3 of 19 parts, of 4 of 9 nested ones; 4 ways, keeping and removing'}
ASSUMPTIONS = ['parts are resolved with the object type that stands there', 'when migrating to 3.0, identity is claimed for info, license and schemas, whose conversion does not depend on what encloses them; content is compared for all']

R, C = 'http://h/d/root.json', 'http://h/e/c.json'


def sch(mark, s):
    return {'title': mark, 'type': 'object', 'allOf': [{'title': mark + '0'}, {'title': mark + '1', 'items': {'$ref': s + 'Ab'}, 'properties': {'w': {'title': mark + 'w'}}}],
            'properties': {'p/q': {'title': mark + 'p', 'properties': {'z': {'title': mark + 'z'}, 'r': {'$ref': s + 'A/properties/p~1q/properties/z'}}}, 'p': {'title': mark + 'x'}}}


def make(version):
    two = version == '2.0'
    s = '#/definitions/' if two else '#/components/schemas/'
    head = {'swagger': '2.0'} if two else {'openapi': '3.0.0'}
    g = {'A': sch('A', s), 'Ab': {'title': 'Ab', 'not' if not two else 'items': {'$ref': s + 'A'}}, 'A/b': {'title': 'A/b', 'allOf': [{'$ref': s + 'A/properties/p~1q'}]},
         'm~n': {'title': 'm~n', 'items': {'$ref': s + '~01'}}, '~1': {'title': '~1'}, '': {'title': 'empty'}}
    ref = {'$ref': s + 'A~1b'}
    op = {'operationId': 'g', 'parameters': [{'name': 'a', 'in': 'query', 'type': 'string'}, {'name': 'b', 'in': 'header', 'type': 'string'}] if two else
          [{'name': 'a', 'in': 'query', 'schema': {'title': 'qa'}}, {'name': 'b', 'in': 'header', 'schema': {'title': 'qb'}}],
          'responses': {'200': {'description': 'r', 'schema': ref} if two else {'description': 'r', 'content': {'a/b': {'schema': ref}}}, 'default': {'description': 'e'}}}
    c = dict(head, info={'title': 'C', 'version': '1', 'license': {'name': 'l'}}, paths={'/x': {'get': op}, '/x/y': {'put': {'operationId': 'u', 'responses': {'200': {'description': 'y'}}}}})
    if two:
        c.update(definitions=g, parameters={'H': {'name': 'H', 'in': 'header', 'type': 'string'}}, responses={'Q': {'description': 'Q', 'schema': dict(ref)}}, securityDefinitions={'k/1': {'type': 'basic'}})
    else:
        c['components'] = {'schemas': g, 'parameters': {'H': {'name': 'H', 'in': 'header', 'schema': dict(ref)}}, 'responses': {'Q': {'description': 'Q', 'content': {'a/b': {'schema': dict(ref)}}}},
                           'securitySchemes': {'k/1': {'type': 'http', 'scheme': 'basic'}}, 'requestBodies': {'B': {'content': {'a/b': {'schema': dict(ref)}}}}}
    if two:
        c.update(produces=['x/y'], consumes=['x/z'])
    root = dict(head, info={'title': 'R', 'version': '1'}, paths={})
    return {R: root, C: c}


def pool(version):
    """(tokens, type); the first ones are nested or have names close to each other"""
    two = version == '2.0'
    d = ['definitions'] if two else ['components', 'schemas']
    k = [] if two else ['components']
    op = ['paths', '/x', 'get']
    out = [(d + ['A'], 'Schema'), (d + ['A', 'properties', 'p/q'], 'Schema'), (d + ['A', 'properties', 'p/q', 'properties', 'z'], 'Schema'), (d + ['A', 'allOf', '1'], 'Schema'),
           (d + ['A', 'allOf', '1', 'properties', 'w'], 'Schema'), (d + ['A/b'], 'Schema'), (['paths', '/x'], 'PathItem'), (op, 'Operation'), (op + ['responses', '200'], 'Response'),
           (d + ['Ab'], 'Schema'), (d + ['m~n'], 'Schema'), (d + ['~1'], 'Schema'), (op + ['parameters', '1'], 'Parameter'), (['paths', '/x/y'], 'PathItem'),
           (k + ['parameters', 'H'], 'Parameter'), (k + ['responses', 'Q'], 'Response'), (['info'], 'Info'), (['info', 'license'], 'License')]
    return out + [(d + [''], 'Schema')]


ALONE = []
MOVED = ('PathItem', 'Parameter', 'Response', 'Operation')
WAYS = [('load', '2.0'), ('load', '3.0.0'), ('resolve', '2.0'), ('resolve', '3.0.0'), ('refer', '2.0'), ('refer', '3.0.0'), ('migrate', '2.0')]


def cases(tier):
    deep = tier == 'thorough'
    for way, version in WAYS:
        for rm in (0, 1):
            n = len(pool(version))
            yield [way, version, rm, [], 0, n]
            for i in range(n):
                yield [way, version, rm, [i], 2 if deep else 1, n]
                m = 9 if deep else 7
                if i < m:
                    for j in range(m):
                        if j != i:
                            yield [way, version, rm, [i, j], 2 if deep else 1, m]


def run(case, st):
    way, version, rm, prefix, more, n = case
    for m in range(more + 1) if n > 8 else [more]:
        for rest in itertools.permutations([i for i in range(n) if i not in prefix], m):
            ps = [pool(version)[i] for i in prefix + list(rest)]
            try:
                adopt(way, version, rm, ps, st)
            except Fail as e:
                raise Fail('%s, %s%s: parts %s before %s\n  %s' % (way, version, ', removing' if rm else '', [pointer(t) for t, _ in ps], C, e))
    st.outcome('%s %s %d' % (way, version, rm))


def type_of(kind, version):
    return getattr(v2 if version == '2.0' else v3, kind)


def adopt(way, version, rm, ps, st):
    ds = make(version)
    to = '3.0.0' if way == 'migrate' else version
    app = MemApp(ds, R, None if way == 'load' else to, load=way != 'load')
    parts, carried = [], []
    if way == 'refer':
        # the parts are obtained by migrating a fragment that refers to them in order
        for i, (t, kind) in enumerate(ps):
            u = 'http://h/d/f%d.json' % i
            place, host, field = {'Schema': (['items'], 'Schema', 'items'), 'Parameter': (['parameters', 0], 'PathItem', 'parameters'), 'Response': (['responses', '200'], 'Operation', 'responses'),
                                  'PathItem': ([], 'PathItem', None)}.get(kind, (None, None, None))
            if host is None:
                return
            ref = {'$ref': C + pointer(t)}
            ds[u] = {'Schema': {'items': ref}, 'Parameter': {'parameters': [ref]}, 'Response': {'responses': {'200': ref}}, 'PathItem': ref}[kind]
            st.trans()
            f = real(call('resolving ' + u, app.resolve_obj, u, version, parser=type_of(host, version), to_spec_version=to)[0])
            parts.append(None)
            carried.append((i, f, kind))
    else:
        for t, kind in ps:
            st.trans()
            u = C + pointer(t)
            if way == 'load':
                parts.append(call('loading ' + u, app.load_obj, u, parser=type_of(kind, version)))
            elif way == 'migrate' and kind == 'Operation':
                parts.append(None)  # operations are not migrated alone
            else:
                parts.append(real(call('resolving ' + u, app.resolve_obj, u, version, parser=type_of(kind, version), to_spec_version=to)[0]))
    st.state([way, version, rm, ps])
    st.trans()
    if way == 'load':
        whole = call('loading the whole', app.load_obj, C, remove_dummy=bool(rm))
        expect_eq(whole.dump(), ds[C], 'content of the whole')
    else:
        whole = real(call('resolving the whole', app.resolve_obj, C, version, to_spec_version=to, remove_dummy=bool(rm))[0])
    gc.collect() if rm else None
    check(way, version, to, ds, app, whole, ps, parts)
    if way == 'load':
        st.trans()
        migrated = call('preparing the whole', app.migrate_obj, whole, C, version)
        expect(migrated is whole, 'preparing gives another object')
        check(way, version, to, ds, app, whole, ps, parts)
    if way != 'migrate':
        Graph(ds, version, identity=True).check(whole, C, [], 'Swagger' if version == '2.0' else 'OpenApi')
    else:
        expect_eq(whole.dump(), alone(), 'the whole, compared to one loaded alone')
    for i, f, kind in carried:
        o = {'Schema': lambda: f.items, 'Parameter': lambda: f.parameters[0], 'Response': lambda: f.responses['200'], 'PathItem': lambda: f}[kind]()
        t = o.get_attrs('migration').ref_obj
        expect(t is not None and real(t) is at(whole, ps[i][0]), 'the reference to %s carries another object than the whole has', pointer(ps[i][0]))
    st.trace()


def alone():
    if not ALONE:
        ALONE.append(real(MemApp(make('2.0'), R, '3.0.0').resolve_obj(C, '2.0', to_spec_version='3.0.0')[0]).dump())
    return ALONE[0]


def call(what, fn, *a, **k):
    try:
        return fn(*a, **k)
    except Exception as e:
        raise Fail('%s: %s(%s)' % (what, type(e).__name__, e))


def at(o, toks):
    for t in toks:
        try:
            if hasattr(o, 'keys'):
                o = o[t]
            elif t.isdigit() and not hasattr(o, 'get_attrs'):
                o = o[int(t)]
            else:
                o = getattr(o, t)
        except Exception as e:
            raise Fail('nothing at %s: %s(%s)' % (pointer(toks), type(e).__name__, e))
    return o


def check(way, version, to, ds, app, whole, ps, parts):
    for (t, kind), part in zip(ps, parts):
        if part is None or way == 'migrate' and kind in MOVED:
            continue
        if way == 'migrate':
            t = ['components', 'schemas'] + t[1:] if t[0] == 'definitions' else t
        there = at(whole, t)
        expect(there is part, '%s in the whole is %s, not the object obtained before', pointer(t), short(there))
        expect(part.get_parent() is at(whole, t[:-1]), 'the parent of %s is not the one that encloses it', pointer(t))
        if way != 'load':
            old = ['definitions'] + t[2:] if way == 'migrate' and t[0] == 'components' else t
            again = real(call('resolving again', app.resolve_obj, C + pointer(old), version, parser=type_of(kind, version), to_spec_version=to)[0])
            expect(again is part, 'resolving %s again gives another object', pointer(t))
        if way != 'migrate':
            expect_eq(dropped(part, version, to), walk(ds[C], t), 'content of %s' % pointer(t))


def dropped(o, version, to):
    return strip(o.dump())


def strip(x):
    """references inside a document are relative in the source"""
    if isinstance(x, dict):
        return dict((k, v[len(C):] if k == '$ref' and v.startswith(C) else strip(v)) for k, v in x.items())
    return [strip(v) for v in x] if isinstance(x, list) else x
