"""C10: every $ref ends up attached to the object it names, for any reference graph.

Explored: all graphs over up to N schemas (leaf, direct reference, references below properties, items and allOf; self references,
cycles, shared targets, chains) x the document each schema is in x version (2.0, 3.0.0, 2.0 migrated to 3.0.0); every place of a
reference of every component kind x local / external / chained target; and dangling references. The loaded tree is walked together
with the sources: each reference must carry the object at its target, which is itself walked, to a fixed point.
"""
import copy
import itertools
import docs
import spec
from core import Fail, expect, short
from docs import esc, pointer
from env import MemApp
from graph import Graph

ID, LEVEL = 'C10', 'model_checking'
RULE = ('a state is a set of documents; a transition is loading and migrating it; the resulting tree and everything its references '
        'carry is compared with the sources to a fixed point, and the text of each reference is read in its own document (coinductively, so cycles are covered)')
BOUNDS = {'quick': '2 schemas of 14 shapes x 9 document placements, 3 schemas of 5 shapes x 4 placements, each in 2.0, 3.0.0 and 2.0 to 3.0.0; all reference places of 3.0; references to parts of operations, bodies and responses of 2.0 (5 schemas x 6 parameters x 4 placements); dangling references in all 2-schema graphs',
          'thorough': '3 schemas of 14 shapes x 13 placements'}
ASSUMPTIONS = ['reference targets are named components, members of them in a document of the same version as the result, or in 2.0 parameters of operations and schemas of bodies and responses',
               'a reference names an object of the kind expected at its place', 'one document has one URL']

R, B, C = 'http://h/d/root.json', 'http://h/d/b.json', 'http://h/e/c.json'
NAMES = ['A', 'A/b', 'A~']


def url_of(w):
    return {'r': R, 'b': B, 'c': C, 'B': B, 'C': C}[w]


def comp(version):
    return ['definitions'] if version == '2.0' else ['components', 'schemas']


def ref_to(j, frm, places, version):
    toks = comp(version) + [NAMES[j]]
    p = pointer(toks)
    a, b = url_of(places[frm]), url_of(places[j])
    if a == b:
        return p if (frm + j) % 2 == 0 or a == R else {B: 'b.json', C: 'http://h/e/c.json'}[b] + p
    return {(R, B): 'b.json', (B, R): 'root.json', (R, C): '../e/c.json', (C, R): '/d/root.json', (B, C): 'http://h/e/c.json', (C, B): '../d/b.json'}[(a, b)] + p


def shapes(n, small):
    """the ways one node refers to others"""
    out = [('L', )]
    out += [('R', j) for j in range(n)]
    out += [('P', j) for j in range(n)]
    if not small:
        out += [('I', j) for j in range(n)]
        out += [('X', j) for j in range(n)]
        out += [('A', j, k) for j in range(n) for k in range(n)]
    return out


def node(i, kind, places, version):
    def r(j):
        return {'$ref': ref_to(j, i, places, version)}
    t = 'n%d' % i
    if kind[0] == 'L':
        return {'type': 'string', 'title': t}
    if kind[0] == 'R':
        return r(kind[1])
    if kind[0] == 'P':
        return {'title': t, 'properties': {'p/q': r(kind[1]), 'l': {'title': t + 'l'}}}
    if kind[0] == 'I':
        return {'title': t, 'type': 'array', 'items': {'type': 'array', 'items': r(kind[1])}}
    if kind[0] == 'X':
        return {'title': t, 'additionalProperties': r(kind[1])}
    return {'title': t, 'allOf': [r(kind[1]), {'title': t + 'm', 'properties': {'x': r(kind[2])}}]}


def make(kinds, places, version):
    """documents by URL; places: r root, b / c fragment documents, B / C full documents"""
    ds = {}
    for w in ['r'] + list(places):
        if w in 'rBC':
            d = {'swagger': '2.0'} if version == '2.0' else {'openapi': '3.0.0'}
            d.update(info={'title': w, 'version': '1'}, paths={})
        else:
            d = {}
        ds.setdefault(url_of(w), d)
    for i, k in enumerate(kinds):
        d = ds[url_of(places[i])]
        for c in comp(version):
            d = d.setdefault(c, {})
        d[NAMES[i]] = node(i, k, places, version)

    def e(j):
        """reference from the root"""
        return {'$ref': ('' if places[j] == 'r' else {B: 'b.json', C: '/e/c.json'}[url_of(places[j])]) + pointer(comp(version) + [NAMES[j]])}
    if version == '2.0':
        ds[R]['produces'] = ['a/b']
        ds[R]['consumes'] = ['a/b']
        op = {'parameters': [{'in': 'body', 'name': 'b', 'schema': e(len(kinds) - 1)}], 'responses': {'200': {'description': 'd', 'schema': {'properties': {'e': e(0)}}}}}
    else:
        op = {'requestBody': {'content': {'a/b': {'schema': e(len(kinds) - 1)}}}, 'responses': {'200': {'description': 'd', 'content': {'a/b': {'schema': {'properties': {'e': e(0)}}}}}}}
    ds[R]['paths'] = {'/x': {'post': op}}
    return ds


PLACES2 = ['rr', 'rb', 'rB', 'br', 'Br', 'bb', 'BB', 'bc', 'Bc']
PLACES3 = ['rrr', 'rbr', 'brb', 'bcr']
PLACES3D = PLACES3 + ['bbr', 'rbb', 'bbb', 'BrB', 'rBC', 'bcb', 'bBr'.replace('B', 'c'), 'rBr', 'BCr']
MODES = ['2.0', '3.0.0', '2.0>3.0.0']


def cases(tier):
    deep = tier == 'thorough'
    for m in MODES:
        for p in PLACES2:
            yield ['graph', m, p, False, None]
        for p in (PLACES3D if deep else PLACES3):
            for k in range(len(shapes(3, not deep))):
                yield ['graph', m, p, not deep, k]
        for p in PLACES2:
            yield ['dangling', m, p]
    for i in range(len(PLACES_OF_REF)):
        yield ['place', i]
    for i in range(len(REF2)):
        for m in ('2.0', '2.0>3.0.0'):
            yield ['place2', i, m]
    for i in range(len(INLINE)):
        for j in range(len(LISTED)):
            for m in ('2.0', '2.0>3.0.0'):
                yield ['inline', i, j, m]
    yield ['whole']


# ------------------------------------------------------------------ references of other kinds

COMPONENT = {'Schema': 'schemas', 'Response': 'responses', 'Parameter': 'parameters', 'Example': 'examples', 'RequestBody': 'requestBodies', 'Header': 'headers',
             'SecurityScheme': 'securitySchemes', 'Link': 'links', 'Callback': 'callbacks'}


def starred(doc, shape, toks=()):
    """(tokens, type) of every place in a 3.0 document where an object or a reference may stand"""
    if isinstance(shape, list):
        if shape[0] == 'bool':
            if not isinstance(doc, bool):
                for x in starred(doc, shape[1], toks):
                    yield x
            return
        for k, v in (enumerate(doc) if shape[0] == 'list' else doc.items()):
            for x in starred(v, shape[1], toks + (str(k), )):
                yield x
        return
    if shape in ('any', 'str'):
        return
    if shape.endswith('*'):
        yield list(toks), shape[:-1]
        if '$ref' in doc:
            return
    tab = spec.TABLES['3.0.0'][shape.rstrip('*')]
    if tab is None:
        for k, v in doc.items():
            for x in starred(v, 'PathItem', toks + (k, )):
                yield x
        return
    for k, s in tab.items():
        if doc.get(k) is not None:
            for x in starred(doc[k], s, toks + (k, )):
                yield x


def rich3():
    d = docs.doc3()
    d['paths']['/a/{b}']['get']['responses']['200']['content']['a/b']['encoding']['f/1']['headers']['r'] = {'$ref': '#/components/headers/H~0'}
    d['paths']['/a/{b}']['get']['callbacks']['r'] = {'$ref': '#/components/callbacks/C~1'}
    d['paths']['/a/{b}']['get']['responses']['200']['links']['r'] = {'$ref': '#/components/links/L'}
    del d['paths']['/a/{b}']['trace'], d['paths']['/~']
    # members next to a $ref
    d['paths']['/m'] = {'$ref': '#/paths/~1a~1{b}', 'parameters': [{'name': 'm', 'in': 'query', 'schema': {'type': 'string'}}, {'name': 'm2', 'in': 'query', 'schema': {'type': 'string'}}],
                        'put': {'parameters': [{'name': 'm3', 'in': 'query', 'schema': {'type': 'string'}}], 'responses': {'200': {'description': ''}}}}
    return d


PLACES_OF_REF = list(starred(rich3(), 'OpenApi'))
TARGETS = {'Schema': {'title': 'TT', 'properties': {'z': {'type': 'string'}}}, 'Response': {'description': 'TT', 'headers': {'h': {'description': 'hh'}}},
           'Parameter': {'name': 'TT', 'in': 'query', 'schema': {'type': 'string', 'title': 'ts'}}, 'Example': {'summary': 'TT', 'value': 1},
           'RequestBody': {'description': 'TT', 'content': {'a/b': {'schema': {'title': 'tb'}}}}, 'Header': {'description': 'TT', 'schema': {'title': 'th'}},
           'SecurityScheme': {'type': 'http', 'scheme': 'TT'}, 'Link': {'operationId': 'TT', 'server': {'url': 'u'}}, 'Callback': {'{$u}': {'summary': 'TT'}}}


def place_docs(i):
    toks, kind = PLACES_OF_REF[i]
    group = COMPONENT[kind]
    me = toks[:2] == ['components', group] and len(toks) == 3
    local = pointer(['components', group, 'T/~'])
    for how in range(8):
        d = rich3()
        ds = {R: d}
        if how < 4:
            d['components'].setdefault(group, {})['T/~'] = copy.deepcopy(TARGETS[kind])
            if how == 0:
                ref = local
            elif how == 1:          # chain
                d['components'][group]['U'] = {'$ref': local}
                ref = pointer(['components', group, 'U'])
            elif how == 2:          # chain through another document
                ds[B] = {'x/y': {'$ref': 'root.json' + local}}
                ref = 'b.json#/x~1y'
            else:                   # by its own URL
                ref = R + local
        elif how == 4:
            ds[B] = {'x/y': copy.deepcopy(TARGETS[kind])}
            ref = 'b.json#/x~1y'
        elif how == 5:
            ds[C] = {'openapi': '3.0.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}, 'components': {group: {'x': copy.deepcopy(TARGETS[kind])}}}
            ref = '../e/c.json#/components/%s/x' % group
        elif how == 6:              # chain between other documents, relative to each
            ds[C] = {'x': {'$ref': '../d/b.json#/y'}}
            ds[B] = {'y': copy.deepcopy(TARGETS[kind])}
            ref = '/e/c.json#/x'
        else:                       # cycle
            if not me:
                ds[C] = {'x': {'$ref': '../d/b.json#/y'}}
                ds[B] = {'y': {'$ref': '/e/c.json#/x'}}
                ref = '/e/c.json#/x'
            else:
                ref = pointer(toks)
        parent = docs.walk(d, toks[:-1])
        parent[int(toks[-1]) if isinstance(parent, list) else toks[-1]] = {'$ref': ref}
        # components nothing refers to, the first and the last of their kind
        d['components'][group] = dict([('~first', {'$ref': ref})], **d['components'].get(group, {}), **{'~last': {'$ref': ref}})
        yield ds


REF2 = ['ref-path', 'op-param', 'path-param', 'response', 'items', 'both', 'op-body', 'path-body', 'resp-schema']
BODY = {'in': 'body', 'name': 'TB', 'schema': {'properties': {'r': {'$ref': '#/definitions/S~1'}, 'a': {'allOf': [{'type': 'array', 'items': {'additionalProperties': {'$ref': '#/definitions/S~1'}}}]}}}}
DEFS = {'S/': {'title': 'TS', 'properties': {'me': {'$ref': '#/definitions/S~1'}}}}
PARAM = {'in': 'query', 'name': 'TT', 'type': 'array', 'items': {'type': 'string'}, 'minItems': 0}
RESP = {'description': 'TT', 'headers': {'h': {'type': 'string', 'description': 'hh'}}}


def place2_docs(i):
    what = REF2[i]
    PARAM = BODY if 'body' in what else globals()['PARAM']
    RESP = dict(globals()['RESP'], **({'schema': BODY['schema']} if what == 'resp-schema' else {}))
    defs = {'definitions': DEFS} if 'body' in what or 'schema' in what else {}

    def of(w):
        # the same name leads to something else in each document
        return {'definitions': {'S/': dict(copy.deepcopy(DEFS['S/']), title='TS' + w)}} if defs else {}
    for how in range(5):
        d = {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {'/x': {'get': {'responses': {'200': {'description': 'd'}}}}},
             'parameters': {'P/~': copy.deepcopy(PARAM)}, 'responses': {'R~/': copy.deepcopy(RESP)}, 'consumes': ['a/b'], 'produces': ['a/b']}
        d.update(copy.deepcopy(defs))
        ds = {R: d}
        if how == 0:
            p, r = '#/parameters/P~1~0', '#/responses/R~0~1'
        elif how == 1:
            ds[B] = dict({'p': copy.deepcopy(PARAM), 'r/': copy.deepcopy(RESP)}, **of('B'))
            p, r = 'b.json#/p', 'b.json#/r~1'
        elif how == 2:
            ds[C] = dict(copy.deepcopy(d), paths={}, **of('C'))
            p, r = '/e/c.json#/parameters/P~1~0', '../e/c.json#/responses/R~0~1'
        elif how == 3:
            ds[C] = {'p': {'$ref': '../d/b.json#/p'}, 'r/': {'$ref': '/d/b.json#/r'}}
            ds[B] = dict({'p': copy.deepcopy(PARAM), 'r': copy.deepcopy(RESP)}, **of('B'))
            p, r = '/e/c.json#/p', '../e/c.json#/r~1'
        else:
            p, r = R + '#/parameters/P~1~0', R + '#/responses/R~0~1'
        item = d['paths']['/x']
        if what in ('op-body', ):
            item['get']['parameters'] = [{'in': 'query', 'name': 'o', 'type': 'string'}, {'$ref': p}]
        if what == 'path-body':
            item['parameters'] = [{'in': 'query', 'name': 'o', 'type': 'string'}, {'$ref': p}]
        if what in ('op-param', 'both'):
            item['get']['parameters'] = [{'in': 'query', 'name': 'o', 'type': 'string'}, {'$ref': p}]
        if what in ('path-param', 'both'):
            item['parameters'] = [{'$ref': p}]
        if what == 'ref-path':      # members next to a $ref
            d['paths'] = {'/y': item, '/x': {'$ref': '#/paths/~1y', 'parameters': [{'$ref': p}], 'put': {'parameters': [{'in': 'query', 'name': 'o', 'type': 'string'}, {'$ref': p}], 'responses': {'default': {'$ref': r}}}}}
        if what in ('response', 'both', 'resp-schema'):
            item['get']['responses']['default'] = {'$ref': r}
        if what == 'items':
            item['put'] = {'parameters': [{'$ref': p}], 'responses': {'404': {'$ref': r}, '500': {'$ref': r}}}
        yield ds


def inline(mark):
    return {'title': mark, 'properties': {'p/q': {'title': mark + 'p', 'items': {'$ref': '#/definitions/S~1'}}, 'me': {'$ref': '#/definitions/S~1'}}}


def q2(name):
    return {'in': 'query', 'name': name, 'type': 'string'}


def body2(mark):
    return {'in': 'body', 'name': mark, 'schema': inline(mark)}


def hosts(m):
    """2.0 objects whose parts are elsewhere in 3.0"""
    return {'paths': {'/y': {'post': {'consumes': ['c/d', 'e'], 'parameters': [q2(m + '0'), body2(m + '1'), q2(m + '2'), q2(m + '3')], 'responses': {'200': {'description': m, 'schema': inline(m + 'r')}}}},
                      '/z': {'parameters': [body2(m + 'z0'), q2(m + 'z1')], 'put': {'parameters': [q2(m + 'z2')], 'responses': {'default': {'description': m + 'd'}}}}},
            'responses': {'R~': {'description': m + 'R', 'schema': inline(m + 'R')}}, 'parameters': {'B/': body2(m + 'B')}, 'definitions': {'S/': {'title': 'TS' + m}}}


INLINE = [['paths', '/y', 'post', 'parameters', '1', 'schema'], ['paths', '/y', 'post', 'responses', '200', 'schema'], ['paths', '/z', 'parameters', '0', 'schema'],
          ['responses', 'R~', 'schema'], ['parameters', 'B/', 'schema']]
LISTED = [['paths', '/y', 'post', 'parameters', '0'], ['paths', '/y', 'post', 'parameters', '2'], ['paths', '/y', 'post', 'parameters', '3'], ['paths', '/z', 'parameters', '1'],
          ['paths', '/z', 'put', 'parameters', '0'], ['paths', '/y', 'post', 'parameters', '1']]


def inline_docs(i, j):
    for deeper in ([], ['properties', 'p/q']):
        schema, par = pointer(INLINE[i] + deeper), pointer(LISTED[j])
        for how in range(4):
            d = dict(hosts('r'), swagger='2.0', info={'title': 't', 'version': '1'})
            ds = {R: d}
            if how:
                ds[C] = dict(hosts('c'), **({'swagger': '2.0', 'info': {'title': 'c', 'version': '1'}} if how != 2 else {}))
            to = ['', '../e/c.json', 'http://h/e/c.json', 'b.json'][how]
            if how == 3:
                ds[B] = {'s': {'$ref': '/e/c.json' + schema}, 'p/': {'$ref': '../e/c.json' + par}}
            a, b = (to + schema, to + par) if how < 3 else ('b.json#/s', 'b.json#/p~1')
            d['definitions'].update({'A': {'$ref': a}, 'B~': {'title': 'TB', 'allOf': [{'$ref': a}, {'$ref': '#/definitions/A'}], 'properties': {'x': {'$ref': a}}}})
            d['paths']['/x'] = {'parameters': [{'$ref': b}], 'get': {'parameters': [q2('first'), {'$ref': b}], 'responses': {'200': {'description': 'd', 'schema': {'$ref': a}}}}}
            if 'in' in docs.walk(ds.get(C, d), LISTED[j]) and docs.walk(ds.get(C, d), LISTED[j])['in'] == 'body':
                d['paths']['/x'].pop('parameters')      # one body is enough
            yield ds


# ------------------------------------------------------------------ checks

def load(ds, mode):
    return MemApp(copy.deepcopy(ds), R, mode.split('>')[-1])


def run(case, st):
    kind = case[0]
    if kind == 'graph':
        _, mode, places, small, first = case
        n = len(places)
        version = mode.split('>')[0]
        sh = shapes(n, small)
        for kinds in itertools.product(*([sh if first is None else [sh[first]]] + [sh] * (n - 1))):
            check(make(kinds, places, version), mode, st)
    elif kind == 'dangling':
        _, mode, places = case
        version = mode.split('>')[0]
        c = pointer(comp(version))
        for kinds in itertools.product(shapes(2, True), repeat=2):
            for bad in (c + '/zz', 'http://h/d/b.json%s/zz' % c, 'http://h/none.json%s/A' % c, c + '/A/properties/zz', '#/zz', 'b.json#/zz/0'):
                for i in range(2):
                    for how in ('R', 'P'):
                        ds = make(kinds, places, version)
                        d = ds[url_of(places[i])]
                        for t in comp(version):
                            d = d[t]
                        if how == 'R':
                            d[NAMES[i]] = {'$ref': bad}
                        else:
                            d[NAMES[i]] = {'title': 'n%d' % i, 'properties': {'p/q': {'$ref': bad}}}
                        fails(ds, mode, st)
    elif kind == 'place':
        for ds in place_docs(case[1]):
            check(ds, '3.0.0', st)
    elif kind == 'place2':
        for ds in place2_docs(case[1]):
            check(ds, case[2], st)
    elif kind == 'inline':
        for ds in inline_docs(case[1], case[2]):
            check(ds, case[3], st)
    elif kind == 'whole':
        # the target is a whole document
        for mode in MODES:
            for ref in ('b.json', 'b.json#', 'http://h/d/b.json', 'http://h/d/b.json#'):
                version = mode.split('>')[0]
                ds = make([('L', ), ('L', )], 'rr', version)
                d = ds[R]
                for t in comp(version):
                    d = d[t]
                d['A'] = {'properties': {'w': {'$ref': ref}}}
                ds[B] = {'title': 'whole', 'properties': {'self': {'$ref': '#'}, 'me': {'$ref': '#/properties/leaf'}, 'leaf': {'title': 'l'}}}
                check(ds, mode, st)
    st.outcome(case[:2])


def reachable(ds, version):
    """whether every reference that can be reached from the root has a target"""
    from graph import address
    seen, todo = set(), [(R, ())]
    while todo:
        u, t = todo.pop()
        if (u, t) in seen:
            continue
        seen.add((u, t))
        if u not in ds:
            return False
        raw = docs.walk(ds[u], list(t))
        if raw is docs.MISSING:
            return False
        for _, v in docs.nodes(raw):
            if isinstance(v, dict) and isinstance(v.get('$ref'), str):
                todo.append(address(v['$ref'], u))
    return True


def fails(ds, mode, st):
    st.state([mode, ds])
    st.trans()
    if reachable(ds, mode.split('>')[0]):
        return check(ds, mode, st)
    try:
        load(ds, mode)
    except Exception:
        st.trace()
        return
    raise Fail('loading (%s) succeeds although a reference has no target: %s' % (mode, short(ds, 2500)))


def check(ds, mode, st):
    st.state([mode, ds])
    st.trans()
    try:
        app = load(ds, mode)
        roots = [(app.raw if mode == '2.0' else app.root)]
        if '>' not in mode:
            g = Graph(ds, mode)
            g.exact = True
            g.check(roots[0], R, (), 'Swagger' if mode == '2.0' else 'OpenApi')
        else:
            g = Graph(ds, '2.0')
            g.exact = True
            g.check(app.spec_obj_store.get(R, '#', '2.0'), R, (), 'Swagger')
            converted(app, ds)
    except Fail as e:
        raise Fail('%s of %s:\n  %s' % (mode, short(ds, 2500), e))
    except Exception as e:
        raise Fail('loading (%s) %s: %s(%s)' % (mode, short(ds, 2500), type(e).__name__, e))
    st.trace()


def converted(app, ds):
    """the 3.0.0 tree of a 2.0 document: schemas at their components, and from the bodies, parameters and responses"""
    src = ds[R]
    g = Graph(ds, '3.0.0')
    for k in src.get('definitions', {}):
        g.check(app.root.components.schemas[k], R, ('definitions', k), 'Schema*')
    g.identity = False      # inlined bodies and responses are several objects for one source
    for path, item in src['paths'].items():
        expect(item.keys() <= {'$ref', 'parameters', 'get', 'put', 'post'}, 'unexpected member')
        shared_body = None
        n = 0
        for i, p in enumerate(item.get('parameters', [])):
            at = follow(g, R, ('paths', path, 'parameters', str(i)))
            if at[-1]['in'] == 'body':
                shared_body = at
            else:
                shared(g, app.root.paths[path].parameters[n], p, R)
                n += 1
        expect(len(app.root.paths[path].parameters or []) == n, 'path level parameters')
        for m in ('get', 'put', 'post'):
            op = item.get(m)
            if op is None:
                continue
            o = getattr(app.root.paths[path], m)
            body, n = shared_body, 0
            for i, p in enumerate(op.get('parameters', [])):
                at = follow(g, R, ('paths', path, m, 'parameters', str(i)))
                if at[-1]['in'] == 'body':
                    body = at
                else:
                    shared(g, o.parameters[n], p, R)
                    n += 1
            expect(len(o.parameters or []) == n, 'parameters')
            expect((body is not None) == (o.requestBody is not None), 'request body')
            if body:
                expect(o.requestBody.content.keys(), 'no content')
                for ct in o.requestBody.content.keys():
                    g.check(o.requestBody.content[ct].schema, body[0], body[1] + ('schema', ), 'Schema*')
            for k, r in op['responses'].items():
                at = follow(g, R, ('paths', path, m, 'responses', k))
                if 'schema' in at[-1]:
                    expect(o.responses[k].content.keys(), 'no content')
                    for ct in o.responses[k].content.keys():
                        g.check(o.responses[k].content[ct].schema, at[0], at[1] + ('schema', ), 'Schema*')
                else:
                    shared(g, o.responses[k], r, R)


def follow(g, url, toks):
    """(url, tokens, raw) at the end of the references"""
    from graph import address
    while True:
        raw = docs.walk(g.docs[url], list(toks))
        if '$ref' not in raw:
            return url, tuple(toks), raw
        url, toks = address(raw['$ref'], url)


def shared(g, o, raw, url):
    """a converted parameter or response that may be a reference: every link of its chain carries the counterpart of the source"""
    from graph import address, real
    for _ in range(5):
        if '$ref' not in raw:
            break
        o = real(o)
        expect(type(o).__name__ == 'Reference', 'the reference %s became a %s', raw, type(o).__name__)
        attrs = o.get_attrs('migration')
        o2 = attrs is not None and attrs.ref_obj
        expect(o2 is not None and o2 is not False, 'the reference %s carries nothing', raw)
        url, toks = address(raw['$ref'], url)
        raw, o = docs.walk(g.docs[url], list(toks)), o2
    o = real(o)
    if 'in' in raw:
        expect(type(o).__name__ == 'Parameter' and o.name == raw['name'] and getattr(o, 'in') == raw['in'], '%s became %s', short(raw), short(o.dump()))
        expect(o.schema.type == raw['type'], '%s became %s', short(raw), short(o.dump()))
    else:
        expect(type(o).__name__ == 'Response' and o.description == raw['description'], '%s became %s', short(raw), short(o.dump()))
        expect(sorted((o.headers or {}).keys()) == sorted(raw.get('headers', {})), '%s became %s', short(raw), short(o.dump()))
