"""C23: content of the wrong kind is refused, it is never read as something else.

Explored: for each object type of 1.2, 2.0 and 3.0.0 every member that is to hold an object, an array, a map or texts, at every level of its
value, x every other kind of JSON value, alone and among all other members, at the end of every nesting chain, and in place of the object
itself; every such place of the full documents of three versions, of the resources of 1.2 listings and of everything a reference leads to in
another document, loaded and migrated by the application, which has to refuse the document, refuse it again and still load others;
references that are no texts; versions nobody knows, as those of documents and as those to migrate to; operations that no single
request body can express; and members that are required but missing, or that are not allowed.
Oracle: the object tables of the specifications (spec.py).
"""
import copy
import docs
import gen
import spec
from core import Fail, expect, expect_eq, same, short
from env import MemApp
from props import c03

ID, LEVEL = 'C23', 'model_checking'
RULE = 'a state is a document or fragment with one place of it changed to a value of the wrong kind; a transition is one attempt to load, migrate or resolve it; all places x all kinds are enumerated'
BOUNDS = {'quick': 'every member of every type x up to 9 wrong values at every level; chains of 1 nested object; every place of the full documents and of 24 referenced fragments x 3 wrong values',
          'thorough': 'chains of 2 nested objects; every place of the full documents and fragments x all wrong values, to every version'}
ASSUMPTIONS = ['null members are treated as absent', 'the kinds of plain members (numbers, booleans, texts outside of lists and maps) are not checked by pyopenapi', 'a $ref that is false, 0 or empty is treated as absent']

OBJ = [[], ['$ref'], [{}], '', 'x', '$ref', 0, 7, 1.5, False, True]
WRONG = {'obj': OBJ, 'map': OBJ,
         'list': [{}, {'0': {}}, {'$ref': '#/x'}, '', 'x', 0, 7, 1.5, False, True],
         'str': [[], ['x'], {}, {'$ref': '#/x'}, 0, 7, 1.5, False, True],
         'bool': [[], [{}], '', 'true', 0, 1, 1.5]}
NULLS = ('obj', 'map', 'list', 'str', 'bool')


def kind(version, shape):
    if isinstance(shape, list):
        return shape[0]
    if shape in ('any', 'str'):
        return shape
    return 'obj'


def wrongs(version, shape, inside=False):
    """(what is wrong, value) for every level of the shape"""
    k = kind(version, shape)
    if k == 'any':
        return
    for w in WRONG[k] + ([None] if inside else []):
        yield k, w
    if k in ('list', 'map'):
        sub = shape[1]
        good = [] if kind(version, sub) in ('any', ) else gen.values(version, sub)[:1]
        for what, w in wrongs(version, sub, True):
            if k == 'list':
                yield 'list of ' + what, [w]
                yield 'list of ' + what, good * 2 + [w]
            else:
                yield 'map of ' + what, {'a/~': w}
                yield 'map of ' + what, dict([('0', g) for g in good] + [('z', w)])
    elif k == 'obj' and not isinstance(shape, list) and spec.TABLES[version][shape.rstrip('*')] is None:
        for what, w in wrongs(version, ['map', 'PathItem']):
            if what != 'map':
                yield what, w


def shaped(doc, shape, version, toks=(), inside=False):
    """(tokens, kind, may be null) of every place whose kind the specification fixes"""
    tab = spec.TABLES[version]
    k = kind(version, shape)
    if k == 'any':
        return
    yield list(toks), k, not inside
    if k == 'bool':
        if isinstance(doc, bool):
            return
        for x in shaped(doc, shape[1], version, toks):
            if x[0] != list(toks):
                yield x
        return
    if k in ('list', 'map'):
        for i, v in (enumerate(doc) if k == 'list' else doc.items()):
            for x in shaped(v, shape[1], version, toks + (str(i), ), True):
                yield x
    elif k == 'obj':
        name = spec.kind_of(doc, shape)
        if tab[name] is None:
            for x in shaped(doc, ['map', 'PathItem'], version, toks):
                if x[0] != list(toks):
                    yield x
            return
        for m in tab[name]:
            if m in doc and doc[m] is not None:
                for x in shaped(doc[m], tab[name][m], version, toks + (m, )):
                    yield x


# what the specifications require of objects and pyopenapi tells about
REQUIRED = {
    '1.2': {'Scope': 'scope', 'LoginEndpoint': 'url', 'TokenRequestEndpoint': 'url', 'TokenEndpoint': 'url', 'ResponseMessage': 'code message',
            'Parameter': 'paramType name', 'Operation': 'method nickname', 'Api': 'path', 'Model': 'id properties',
            'ApiDeclaration': 'swaggerVersion basePath apis', 'Info': 'title description', 'ResourceListing': 'swaggerVersion', 'Implicit': 'loginEndpoint'},
    '3.0.0': {'Reference': '$ref', 'License': 'name', 'Info': 'title version', 'ServerVariable': 'default', 'Server': 'url', 'ExternalDocumentation': 'url',
              'Parameter': 'name in', 'RequestBody': 'content', 'Response': 'description', 'OAuthFlow': 'scopes', 'SecurityScheme': 'type', 'Tag': 'name'}}

U, V = 'http://h/root.json', 'http://h/other.json'


def fragments():
    """(version, type, a document whose reference leads to the fragment '#/x' of V, the fragment)"""
    d2, d3 = docs.doc2(), docs.doc3()
    c = d3['components']
    ref = {'$ref': V + '#/x'}
    two = {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}}
    three = {'openapi': '3.0.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}}

    def op(v, **k):
        return dict(two if v == 2 else three, paths={'/p': {'post': dict({'responses': {'200': {'description': 'd'}}}, **k)}})

    def comp(kind):
        return dict(three, components={kind: {'n': ref}})
    out = [
        ('2.0', 'Schema', dict(two, definitions={'D': ref}), d2['definitions']['A/b']),
        ('2.0', 'Schema', dict(two, definitions={'D': {'properties': {'p': ref}}}), d2['definitions']['A/b']),
        ('2.0', 'Schema', op(2, responses={'200': {'description': 'd', 'schema': {'items': ref}}}), d2['definitions']['A/b']),
        ('2.0', 'Parameter', op(2, parameters=[ref]), {'name': 'b', 'in': 'body', 'schema': docs.schema(1)}),
        ('2.0', 'Parameter', op(2, parameters=[ref]), d2['paths']['/a/{b}']['get']['parameters'][0]),
        ('2.0', 'Response', op(2, responses={'default': ref}), dict(d2['paths']['/a/{b}']['get']['responses']['200'], schema=docs.schema(2))),
        ('2.0', 'PathItem', dict(two, paths={'/p': ref}), local(d2['paths']['/a/{b}'])),
        ('3.0.0', 'Schema', comp('schemas'), local(c['schemas']['A/b'])),
        ('3.0.0', 'Schema', dict(three, components={'schemas': {'n': {'not': ref}}}), local(c['schemas']['m~n'])),
        ('3.0.0', 'Parameter', comp('parameters'), dict(c['parameters']['P/q'], content={'a/b': local(docs.media())})),
        ('3.0.0', 'Parameter', op(3, parameters=[ref]), dict(c['parameters']['P/q'], schema=local(c['schemas']['A/b']))),
        ('3.0.0', 'Response', comp('responses'), local(d3['paths']['/a/{b}']['get']['responses']['200'])),
        ('3.0.0', 'Response', op(3, responses={'200': ref}), local(d3['paths']['/a/{b}']['get']['responses']['200'])),
        ('3.0.0', 'RequestBody', comp('requestBodies'), local(c['requestBodies']['B/'])),
        ('3.0.0', 'RequestBody', op(3, requestBody=ref), local(c['requestBodies']['B/'])),
        ('3.0.0', 'Header', comp('headers'), dict(c['headers']['H~'], content={'a/b': {'example': 1}})),
        ('3.0.0', 'Header', op(3, responses={'200': {'description': 'd', 'headers': {'h': ref}}}), c['headers']['H~']),
        ('3.0.0', 'Example', comp('examples'), c['examples']['E']),
        ('3.0.0', 'Example', op(3, requestBody={'content': {'a/b': {'examples': {'e': ref}}}}), c['examples']['E']),
        ('3.0.0', 'Link', comp('links'), {'operationId': 'x', 'parameters': {'p~': 'v'}, 'server': {'url': 's', 'variables': {'v': {'default': 'd', 'enum': ['d']}}}}),
        ('3.0.0', 'Callback', comp('callbacks'), c['callbacks']['C/']),
        ('3.0.0', 'Callback', op(3, callbacks={'k': ref}), c['callbacks']['C/']),
        ('3.0.0', 'SecurityScheme', comp('securitySchemes'), c['securitySchemes']['o']),
        ('3.0.0', 'PathItem', dict(three, paths={'/p': ref}), local(d3['paths']['/a/{b}'])),
    ]
    return out


def local(x):
    """without references into the document it is from"""
    if isinstance(x, dict):
        if '$ref' in x:
            return {'$ref': V + '#/y/' + ('P' if '/parameters/' in x['$ref'] else 'R' if '/responses/' in x['$ref'] else 'E' if '/examples/' in x['$ref'] else 'S')}
        return dict((k, local(v)) for k, v in x.items())
    return [local(v) for v in x] if isinstance(x, list) else x


SHARED = {'2.0': {'P': {'name': 's', 'in': 'query', 'type': 'string'}, 'R': {'description': 's'}, 'S': {'title': 's'}},
          '3.0.0': {'P': {'name': 's', 'in': 'query', 'schema': {}}, 'R': {'description': 's'}, 'S': {'title': 's'}, 'E': {'summary': 's'}}}
VERSIONS = ['', 'x', '1.0', '1.1', '1.2.0', '1.20', '2', '2.', '2.1', '2.00', '2.0.0', '3', '3.0', '3.0.1', '3.1.0', '3.0.00', '4.0.0', None, 2, 2.0, 3, [], ['2.0'], {}, {'2.0': 1}, True, False]


def cases(tier):
    deep = tier == 'thorough'
    for v in ('1.2', '2.0', '3.0.0'):
        for name in sorted(spec.TABLES[v]):
            yield ['type', v, name]
            if spec.TABLES[v][name] is not None:
                for part in range(4 if deep else 1):
                    yield ['chain', v, name, 2 if deep else 1, part, 4 if deep else 1]
    for v in ('2.0', '3.0.0'):
        for part in range(32):
            yield ['doc', v, part, deep]
        yield ['ref', v]
    for part in range(8):
        yield ['doc12', part]
    for i, _ in enumerate(fragments()):
        for part in range(4):
            yield ['fragment', i, part, deep]
    for key in ('swaggerVersion', 'swagger', 'openapi', 'other'):
        yield ['version', key]
    yield ['source']
    for v in ('1.2', '2.0', '3.0.0'):
        yield ['target', v]
    for place in (0, 1):
        yield ['bodies', place]
    for place in ('path', 'query', 'header', 'form'):
        yield ['models12', place]
    for v in REQUIRED:
        for name in sorted(REQUIRED[v]):
            yield ['required', v, name]
    yield ['restricted']


def refused(st, fn, what, doc):
    """the call raises; anything else is a wrong reading"""
    st.trans()
    try:
        got = fn()
    except Exception as e:
        st.outcome(type(e).__name__)
        return
    try:
        got = got.dump()
    except Exception as e:
        got = '%s, which can not be dumped (%s)' % (type(got).__name__, type(e).__name__)
    raise Fail('%s is accepted, as %s\ngiven %s' % (what, short(got), short(doc, 1500)))


def run(case, st):
    globals()['run_' + case[0]](case, st)


def run_type(case, st):
    _, v, name = case
    cls = spec.cls(v, name)
    tab = spec.TABLES[v][name]
    for w in OBJ + [None]:
        st.state([v, name, repr(w)])
        refused(st, lambda: cls(copy.deepcopy(w), '#'), '%s %s made of %r' % (v, name, w), w)
    if tab is None:
        for what, w in wrongs(v, ['map', 'PathItem']):
            if what != 'map':
                st.state([v, name, repr(w)])
                refused(st, lambda: cls(copy.deepcopy(w), '#'), '%s %s with a wrong %s' % (v, name, what), w)
        return
    full = gen.full(v, name)
    cls(copy.deepcopy(full), '#')
    st.trace()
    for m in sorted(tab):
        for what, w in wrongs(v, tab[m]):
            for base in (gen.minimal(v, name), full):
                d = dict(copy.deepcopy(base))
                d[m] = w
                if st.state([v, name, repr(d)]):
                    refused(st, lambda: cls(copy.deepcopy(d), '#/x'), 'the member %r (wrong %s) of a %s %s' % (m, what, v, name), d)


def run_chain(case, st):
    _, v, name, depth, part, n = case
    seen = 0
    for path, d in gen.chains(v, name, depth):
        seen += 1
        if seen % n != part:
            continue
        for toks, k, null in shaped(d, name, v):
            if not toks:
                continue
            for w in WRONG[k] + ([] if null else [None]):
                e = docs.edited(d, toks, lambda _: copy.deepcopy(w))
                if st.state([v, name, repr(e)]):
                    refused(st, lambda: spec.cls(v, name)(e, '#'), '%r at %s of a %s %s' % (w, docs.pointer(toks), v, name), e)


def other(v):
    return {'swagger': '2.0', 'info': {'title': 'o', 'version': '1'}, 'paths': {}, 'definitions': {'S': {'title': 'S'}}} if v == '2.0' else \
        {'openapi': '3.0.0', 'info': {'title': 'o', 'version': '1'}, 'paths': {}, 'components': {'schemas': {'S': {'title': 'S'}}}}


def check_refused(st, files, what, v, to):
    """loading or migrating the document at U is refused, also the second time, and other documents load as ever"""
    good = 'http://h/good.json'
    files = dict(files, **{good: other(v)})
    app = MemApp(files, U, load=False)
    before = copy.deepcopy(files)

    def load():
        o = app.load_obj(U)
        return app.migrate_obj(o, U, to)
    refused(st, load, what, files)
    refused(st, load, what + ' the second time', files)
    late = MemApp(files, good)
    for again in ('', ' again'):
        refused(st, lambda: late.resolve_obj(U, v, to_spec_version=to)[0], what + ' when it is resolved' + again, files)
    g = app.migrate_obj(app.load_obj(good), good, '3.0.0')
    fresh = MemApp({good: other(v)}, good, to='3.0.0')
    expect(same(g.dump(), fresh.root.dump()), 'after %s was refused another document loads as %s, not %s', what, short(g.dump()), short(fresh.root.dump()))
    expect(same(files, before), 'what was refused has been changed')
    st.trace()


def targets(v, deep):
    return ['2.0', '3.0.0'] if v == '2.0' and deep else ['3.0.0']


def pick(k, null, i, deep):
    ws = WRONG[k] + ([] if null else [None])
    return ws if deep else [ws[(i + j * 3) % len(ws)] for j in range(3)]


def run_doc(case, st):
    _, v, part, deep = case
    doc, root = (docs.doc2(), 'Swagger') if v == '2.0' else (docs.doc3(), 'OpenApi')
    MemApp({U: copy.deepcopy(doc)}, U, to='3.0.0')
    for i, (toks, k, null) in enumerate(shaped(doc, root, v)):
        if i % 32 != part or not toks:
            continue
        for w in pick(k, null, i, deep):
            d = docs.edited(doc, toks, lambda _: copy.deepcopy(w))
            for to in targets(v, deep):
                if st.state([v, d, to]):
                    check_refused(st, {U: d}, '%r at %s' % (w, docs.pointer(toks)), v, to)


def run_ref(case, st):
    v = case[1]
    doc = docs.doc2() if v == '2.0' else docs.doc3()
    for toks, val in docs.nodes(doc):
        if not (toks and toks[-1] == '$ref' and isinstance(val, str)):
            continue
        for w in (7, 1.5, True, ['#/x'], {'a': '#/x'}):
            d = docs.edited(doc, toks, lambda _: w)
            for to in targets(v, True):
                if st.state([v, d, to]):
                    check_refused(st, {U: d}, 'the reference %r at %s' % (w, docs.pointer(toks)), v, to)


def run_doc12(case, st):
    lst, apis = c03.listing()
    pre = 'http://h/api-docs/'
    root = pre + 'resource_list.json'
    todo = [(None, lst, x) for x in shaped(lst, 'ResourceListing', '1.2')] + [('pet', apis['pet'], x) for x in shaped(apis['pet'], 'ApiDeclaration', '1.2')]
    for i, (name, doc, (toks, k, null)) in enumerate(todo):
        if i % 8 != case[1]:
            continue
        for w in WRONG[k] + ([] if null else [None]):
            d = docs.edited(doc, toks, lambda _: copy.deepcopy(w)) if toks else copy.deepcopy(w)
            files = dict([(pre + n, copy.deepcopy(a)) for n, a in apis.items()] + [(root, copy.deepcopy(lst))])
            files[root if name is None else pre + name] = d
            if not st.state(['1.2', name, repr(d)]):
                continue
            app = MemApp(files, root, load=False)
            for again in range(2):
                refused(st, lambda: app.load_obj(root), '%r at %s of %s' % (w, docs.pointer(toks), name or 'the listing'), d)
            st.trace()


def run_fragment(case, st):
    _, i, part, deep = case
    v, name, doc, frag = fragments()[i]

    def files(f):
        return {U: copy.deepcopy(doc), V: {'x': f, 'y': copy.deepcopy(SHARED[v])}}
    if part == 0:
        for to in targets(v, True):
            MemApp(files(copy.deepcopy(frag)), U, to=to)
            st.trace()
    for j, (toks, k, null) in enumerate(shaped(frag, name + '*' if name not in ('PathItem', ) else name, v, inside=True)):
        if j % 4 != part:
            continue
        for w in pick(k, null, j, deep):
            f = docs.edited(frag, toks, lambda _: copy.deepcopy(w)) if toks else copy.deepcopy(w)
            for to in targets(v, deep):
                if st.state([i, repr(f), to]):
                    check_refused(st, files(f), '%r at %s of the %s that is referred to' % (w, docs.pointer(toks), name), v, to)


def run_version(case, st):
    key = case[1]
    for w in VERSIONS:
        for d in ({key: w}, {key: w, 'info': {'title': 't', 'version': '1'}, 'paths': {}, 'apis': []}):
            if not st.state([key, repr(w), len(d)]):
                continue
            for to in ('2.0', '3.0.0'):
                check_refused(st, {U: d}, 'a document with %s: %r' % (key, w), '2.0', to)
    if key == 'other':
        for d in ({'Swagger': '2.0'}, {'swagger_version': '1.2'}, {'info': {'swagger': '2.0'}}, {'x-swagger': '2.0'}, {'version': '3.0.0'}):
            st.state(d)
            check_refused(st, {U: d}, 'a document without a version', '2.0', '3.0.0')


def run_source(case, st):
    for d in ({}, [], [{}], [{'swagger': '2.0'}], 'x', '"x"', '7', 'true', 'null', '', ' ', '[]', '[{"swagger": "2.0"}]', '- swagger: "2.0"', '{', '{"swagger": "2.0"', '{"swagger": "2.0"}}',
              'swagger: "2.0"\n bad', 'a: b: c', b'{"swagger": "2.0", "info": {"title": "\xe9", "version": "1"}, "paths": {}}', b'', b'\xff\xfe\x00', b'x', 7, None, True, 1.5, '\x00', '{"swagger": "2.0", }]', "{'swagger': '2.0'"):
        st.state(repr(d))
        for to in ('2.0', '3.0.0'):
            check_refused(st, {U: d}, 'the source %r' % (d, ), '2.0', to)


def run_target(case, st):
    v = case[1]
    if v == '1.2':
        files, root = {'http://h/d/r.json': {'swaggerVersion': '1.2', 'apis': []}}, 'http://h/d/r.json'
    else:
        files, root = {U: other(v)}, U
    for w in VERSIONS:
        if isinstance(w, (list, dict)) or w is True or w is False:
            continue
        st.state([v, repr(w)])
        app = MemApp(copy.deepcopy(files), root)
        refused(st, lambda: app.migrate_obj(app.raw, root, w), 'migrating to %r' % (w, ), files)
        got = app.migrate_obj(app.raw, root, '3.0.0').dump()
        expect(same(got, MemApp(copy.deepcopy(files), root, to='3.0.0').root.dump()), 'after migrating to %r was refused: %s', w, short(got))
        st.trace()


def run_bodies(case, st):
    def body(n, **k):
        return dict({'name': n, 'in': 'body', 'schema': {'title': n}}, **k)

    def form(n, **k):
        return dict({'name': n, 'in': 'formData', 'type': 'string'}, **k)
    q = {'name': 'q', 'in': 'query', 'type': 'string'}
    refs = {'#/parameters/B': body('r'), '#/parameters/F': form('f')}
    bad = [[body('a'), body('b')], [body('a'), body('a')], [body('a'), q, body('b', required=True)], [q, body('a'), body('b'), body('c')],
           [body('a'), {'$ref': '#/parameters/B'}], [{'$ref': '#/parameters/B'}, body('a')], [{'$ref': '#/parameters/B'}, {'$ref': '#/parameters/B'}],
           [form('f'), form('f')], [form('f'), form('g'), form('f', type='integer')], [form('f'), {'$ref': '#/parameters/F'}], [{'$ref': '#/parameters/F'}, q, form('f')]]
    for ps in bad:
        for consumes in (None, [], ['application/json'], ['multipart/form-data'], ['application/x-www-form-urlencoded', 'multipart/form-data']):
            op = {'responses': {'200': {'description': 'd'}}}
            if consumes is not None:
                op['consumes'] = consumes
            item = {'post': op}
            if case[1]:
                item['parameters'] = ps
            else:
                op['parameters'] = ps
            d = {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'parameters': {'B': body('r'), 'F': form('f')}, 'paths': {'/p': item}}
            if st.state(d):
                check_refused(st, {U: d}, 'an operation that one request body can not express', '2.0', '3.0.0')


def run_models12(case, st):
    bad = [{'$ref': 'M'}, {'$ref': 'M', 'type': 'string'}, {'type': 'M', 'allowMultiple': True}, {'type': 'array', 'items': {'$ref': 'M'}}, {'type': 'array', 'items': {'type': 'M'}},
           {'type': 'array', 'items': {}}, {'allowMultiple': True}, {'type': 'string', 'minimum': '1'}, {'type': 'boolean', 'maximum': '1'}, {'type': 'string', 'minimum': '0', 'allowMultiple': True},
           {'type': 'integer', 'minimum': 'x'}, {'type': 'number', 'maximum': 'x'}, {'type': 'integer', 'maximum': [1]}]
    lst, apis = c03.listing()
    pre = 'http://h/api-docs/'
    root = pre + 'resource_list.json'
    for i, p in enumerate([{'type': 'string'}] + bad):
        for required in (False, True):
            for at in (0, 1, 2):
                api = copy.deepcopy(apis['pet'])
                api['apis'][0]['operations'][0]['parameters'].insert(at, dict(p, name='z', paramType=case[1], required=required))
                files = {root: copy.deepcopy(lst), pre + 'pet': api, pre + 'st': copy.deepcopy(apis['st'])}
                st.state([i, required, at])
                app = MemApp(files, root)
                if i == 0:
                    app.migrate_obj(app.raw, root, '3.0.0')
                    continue
                for to in ('2.0', '3.0.0', '2.0'):
                    refused(st, lambda: app.migrate_obj(app.raw, root, to), 'the parameter %s of a 1.2 operation' % short(p), api)
                st.trace()


def run_required(case, st):
    _, v, name = case
    table = spec.TABLES[v][name]
    from props.c22 import names
    for m in REQUIRED[v][name].split():
        for full in (False, True):
            d = dict(gen.full(v, name) if full else gen.minimal(v, name))
            d.pop(m, None)
            st.state([v, name, m, full])
            if kind(v, table[m]) == 'any':
                o = spec.cls(v, name)(d, '#/x')
                for n in names(v, name, m):
                    refused(st, lambda: getattr(o, n), 'reading the required member %s of a %s %s without it' % (n, v, name), d)
                for k in sorted(d):
                    getattr(o, k)
                expect(m not in o.dump(), 'the dump has the member %r the document lacks', m)
            else:
                refused(st, lambda: spec.cls(v, name)(d, '#/x'), 'a %s %s without %s' % (v, name, m), d)
            st.trace()


def run_restricted(case, st):
    for m in ('name', 'in'):
        for w in ('x', '', 'header', 'query'):
            d = {'schema': {'type': 'string'}, m: w}
            st.state(d)
            o = spec.cls('3.0.0', 'Header')(d, '#')
            for n in ((m, 'in_') if m == 'in' else (m, )):
                refused(st, lambda: getattr(o, n), 'reading %s of a header' % n, d)
        o = spec.cls('3.0.0', 'Header')({'schema': {}}, '#')
        expect_eq(getattr(o, 'in'), 'header', 'where a header is')
        st.trace()
