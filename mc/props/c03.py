"""C03: loading a document and dumping it loses and invents nothing.

Explored: for each object type of 1.2, 2.0 and 3.0.0 every instance with <= k members over all their values (falsy ones, empty
containers, odd names, references), every nesting chain, each with and without undefined members; whole documents with every single
node edited, loaded through the application and also migrated to their own version.
Oracle: object tables written from the specifications (spec.py).
"""
import copy
import docs
import gen
import spec
from core import Fail, expect, expect_eq, same, short
from env import MemApp

ID, LEVEL = 'C03', 'model_checking'
RULE = ('a state is a document (fragment) of the bounded space; a transition adds a member to an instance; each is loaded and dumped by '
        'the real code and the dump compared with the document restricted to the tables of the specification')
BOUNDS = {'quick': 'subsets of <= 2 members per type, chains of <= 2 nested objects, single edits of the full documents',
          'thorough': 'subsets of <= 3 members per type, chains of <= 3 nested objects, pairs of map names'}
ASSUMPTIONS = ['null members are treated as absent', 'members of the wrong JSON type and missing required members are outside the domain']


def cases(tier):
    deep = tier == 'thorough'
    for v in ('1.2', '2.0', '3.0.0'):
        for name in gen.types(v):
            n = 8 if len(spec.TABLES[v][name]) > 15 else 1
            for part in range(n * (4 if deep else 1)):
                yield ['type', v, name, 3 if deep else 2, part, n * (4 if deep else 1)]
            for part in range(n):
                yield ['chain', v, name, 3 if deep else 2, part, n]
    for v in ('2.0', '3.0.0'):
        for part in range(64):
            yield ['doc', v, part]
        for i in range(len(gen.NAMES)):
            yield ['names', v, i, deep]
    for part in range(16):
        yield ['doc12', part]


def agree(got, doc, shape, version, at):
    """got is the dump of doc"""
    tab = spec.TABLES[version]
    if isinstance(shape, list):
        kind, sub = shape
        if kind == 'bool':
            if isinstance(doc, bool):
                return same(got, doc) or bad(got, doc, at)
            return agree(got, doc, sub, version, at)
        if kind == 'list':
            if not isinstance(got, list) or len(got) != len(doc):
                bad(got, doc, at)
            for i, (g, d) in enumerate(zip(got, doc)):
                agree(g, d, sub, version, at + [str(i)])
            return
        if not isinstance(got, dict) or set(got) != set(doc):
            bad(got, doc, at)
        for k in doc:
            agree(got[k], doc[k], sub, version, at + [k])
        return
    if shape in ('any', 'str'):
        if not same(got, doc):
            bad(got, doc, at)
        return
    name = spec.kind_of(doc, shape)
    if tab[name] is None:
        return agree(got, doc, ['map', 'PathItem'], version, at)
    if not isinstance(got, dict):
        bad(got, doc, at)
    extra = sorted(set(got) - set(doc))
    expect(not extra, 'at %s the dump has %r, which the document has not', docs.pointer(at), extra)
    undefined = sorted(set(got) - set(tab[name]))
    expect(not undefined, 'at %s the dump has %r, which %s does not define', docs.pointer(at), undefined, name)
    for k in tab[name]:
        if k not in doc or doc[k] is None:
            continue
        if k not in got:
            # only empty containers may be omitted
            opt = doc[k] == [] or (doc[k] == {} and (isinstance(tab[name][k], list) and tab[name][k][0] != 'bool' or tab[name][k] == 'any'))
            expect(opt and not isinstance(doc[k], bool), 'at %s the dump lacks %r: %s', docs.pointer(at), k, short(doc[k]))
            continue
        agree(got[k], doc[k], tab[name][k], version, at + [k])


def bools(doc, shape, version):
    """values of all boolean additionalProperties of the document"""
    tab = spec.TABLES[version]
    if isinstance(shape, list):
        if isinstance(doc, bool):
            return [doc]
        if shape[0] == 'bool':
            return bools(doc, shape[1], version)
        return [b for v in (doc if shape[0] == 'list' else doc.values()) for b in bools(v, shape[1], version)]
    if shape in ('any', 'str'):
        return []
    name = spec.kind_of(doc, shape)
    if tab[name] is None:
        return bools(doc, ['map', 'PathItem'], version)
    return [b for k in tab[name] if doc.get(k) is not None for b in bools(doc[k], tab[name][k], version)]


def no_bools(doc, shape, version):
    tab = spec.TABLES[version]
    if isinstance(shape, list):
        if shape[0] == 'bool':
            return no_bools(doc, shape[1], version)
        if shape[0] == 'list':
            return [no_bools(v, shape[1], version) for v in doc]
        return dict((k, no_bools(v, shape[1], version)) for k, v in doc.items())
    if shape in ('any', 'str'):
        return doc
    name = spec.kind_of(doc, shape)
    if tab[name] is None:
        return no_bools(doc, ['map', 'PathItem'], version)
    return dict((k, v if k not in tab[name] or v is None else no_bools(v, tab[name][k], version)) for k, v in doc.items()
                if not (k in tab[name] and isinstance(tab[name][k], list) and tab[name][k][0] == 'bool' and isinstance(v, bool)))


def dumped(st, o, doc, shape, version):
    """the dump of o, checked against the document"""
    b = bools(doc, shape, version)
    try:
        got = o.dump()
    except Exception as e:
        if True in b:
            st.finding('C03-bool-true', 'a schema with "additionalProperties": true can not be dumped: %s(%s)' % (type(e).__name__, e))
            return None
        raise
    if b and all(x is False for x in b):
        try:
            agree(got, no_bools(doc, shape, version), shape, version, [])
        except Fail:
            pass
        else:
            st.finding('C03-bool-false', '"additionalProperties": false is missing from the dump')
            return got
    agree(got, doc, shape, version, [])
    return got


def bad(got, doc, at):
    raise Fail('at %s: the document has %s, the dump %s' % (docs.pointer(at), short(doc), short(got)))


def check(st, version, name, doc):
    st.state([version, name, doc])
    st.trans()
    orig = copy.deepcopy(doc)
    try:
        o = spec.cls(version, name)(doc, '#')
        got = dumped(st, o, doc, name, version)
        again = None if got is None else o.dump()
    except Fail as e:
        raise Fail('%s of %s: %s\nwhile loading %s' % (name, version, e, short(orig, 1500)))
    expect(same(got, again), 'dumping twice differs for %s', short(doc))
    expect(same(doc, orig), 'loading changed the document\nfrom %s\nto   %s', short(orig), short(doc))
    st.trace()


def run(case, st):
    if case[0] == 'type':
        _, v, name, k, part, n = case
        for i, d in enumerate(gen.subsets(v, name, k)):
            if i % n != part:
                continue
            check(st, v, name, d)
            if i % 3 == 0 and name != 'Reference':
                x = dict(copy.deepcopy(d))
                x.update({'x-ext': {'a': 1}, 'undefined': 'u', 'all_of': 1, 'spec': 2, 'children': {}})
                check(st, v, name, x)
        if part == 0:
            check(st, v, name, gen.full(v, name))
    elif case[0] == 'chain':
        _, v, name, k, part, n = case
        for i, (path, d) in enumerate(gen.chains(v, name, k)):
            if i % n == part:
                check(st, v, name, d)
    elif case[0] == 'doc':
        _, v, part = case
        doc, root = (docs.doc2(), 'Swagger') if v == '2.0' else (docs.doc3(), 'OpenApi')
        for i, d in enumerate(doc_edits(doc, root, v)):
            if i % 64 == part:
                check_app(st, v, root, d)
    elif case[0] == 'names':
        _, v, i, deep = case
        for j in range(len(gen.NAMES)) if deep else range(i % 5, len(gen.NAMES), 5):
            check_names(st, v, gen.NAMES[i], gen.NAMES[j])
    else:
        for i, (lst, apis) in enumerate(edits12()):
            if i % 16 == case[1]:
                check12(st, lst, apis)


REFS = ('$ref', )


def doc_edits(doc, root, version):
    """the document and every single edit that leaves its references intact"""
    yield doc
    for toks, kind, val, parent in spec.places(doc, root, version):
        if not toks or toks[-1] == '$ref' or toks in (['swagger'], ['openapi']):
            continue
        if kind == 'any' and isinstance(val, (str, int, float, bool)):
            strict = toks[-1] in ('in', 'name', 'type', 'flow', 'url', 'title', 'version') and version == '3.0.0'
            for new in (('', 'x') if isinstance(val, str) else (0, 7) if not isinstance(val, bool) else (not val, )):
                yield docs.edited(doc, toks, lambda v: new)
            owner = docs.walk(doc, toks[:-1])
            if isinstance(owner, dict) and not strict and toks[:1] != ['components'] or 'properties' in toks:
                if isinstance(owner, dict) and toks[-1] not in ('description', 'propertyName', 'default', 'name'):
                    yield docs.edited(doc, toks, lambda v: docs.MISSING)
        elif kind in ('list', 'map') and toks[0] not in ('definitions', 'responses', 'parameters', 'components'):
            if isinstance(docs.walk(doc, toks[:-1]), dict) and toks[-1] not in ('scopes', 'content'):
                yield docs.edited(doc, toks, lambda v: docs.MISSING)
            if kind == 'list':
                yield docs.edited(doc, toks, lambda v: [])
                yield docs.edited(doc, toks, lambda v: v + v)


URL = 'http://h/root.json'


def check_app(st, v, root, doc):
    st.state([v, doc])
    st.trans()
    src = copy.deepcopy(doc)
    app = MemApp({URL: src}, URL)
    try:
        dumped(st, app.raw, doc, root, v)
        app.root = app.migrate_obj(app.raw, URL, v)
        dumped(st, app.root, doc, root, v)
        dumped(st, app.raw, doc, root, v)
    except Fail as e:
        raise Fail('%s\nwhile loading %s document %s' % (e, v, short(doc, 3000)))
    expect_eq(app.original_spec_version, v, 'original version')
    st.trace()


def check_names(st, v, a, b):
    if v == '2.0':
        doc, root = docs.doc2(), 'Swagger'
        maps = [['definitions'], ['parameters'], ['responses'], ['securityDefinitions'], ['securityDefinitions', 'o', 'scopes']]
    else:
        doc, root = docs.doc3(), 'OpenApi'
        maps = [['components', k] for k in doc['components']] + [['components', 'securitySchemes', 'o', 'flows', 'implicit', 'scopes']]
    for m in maps:
        vals = list(docs.walk(doc, m).values())
        doc = docs.edited(doc, m, lambda x: dict(x, **{a: vals[0], b: vals[-1]}))
    base = docs.walk(doc, ['paths', '/~'])
    pre = '/' if a.startswith('x-') or True else ''
    doc['paths'] = dict(doc['paths'], **{pre + a: base, pre + b: {}})
    for p in doc['paths'].values():
        for m in p.values():
            if isinstance(m, dict) and 'responses' in m:
                m['responses'] = dict(m['responses'], **{a: {'description': 'A'}, b: {'description': 'B', 'headers': {a: {}, b: {'description': ''}}}})
    check_app(st, v, root, doc)


def listing():
    lst = {'swaggerVersion': '1.2', 'apiVersion': '1', 'apis': [{'path': '/pet', 'description': 'd'}, {'path': '/st', 'description': ''}],
           'info': {'title': 't', 'description': '', 'termsOfServiceUrl': 'u', 'contact': 'c', 'license': 'l', 'licenseUrl': 'lu'},
           'authorizations': {'o': {'type': 'oauth2', 'scopes': [{'scope': 's/1', 'description': ''}],
                                    'grantTypes': {'implicit': {'loginEndpoint': {'url': 'u'}, 'tokenName': 'n'},
                                                   'authorization_code': {'tokenRequestEndpoint': {'url': 'a', 'clientIdName': 'b', 'clientSecretName': 'c'},
                                                                          'tokenEndpoint': {'url': 't', 'tokenName': 'n'}}}},
                              'k': {'type': 'apiKey', 'passAs': 'header', 'keyname': 'k'}, 'b': {'type': 'basicAuth'}}}
    def api(r):
        return {'swaggerVersion': '1.2', 'apiVersion': '1', 'basePath': 'http://h/api', 'resourcePath': '/' + r, 'produces': ['application/json'],
                'consumes': [], 'authorizations': {'o': [{'scope': 's/1', 'description': ''}]},
                'apis': [{'path': '/%s/{id}' % r, 'description': '', 'operations': [
                    {'method': 'GET', 'summary': '', 'notes': 'n', 'nickname': 'get' + r, 'type': 'M', 'deprecated': 'true', 'produces': ['a/b'],
                     'authorizations': {}, 'responseMessages': [{'code': 400, 'message': '', 'responseModel': 'M'}],
                     'parameters': [{'name': 'id', 'paramType': 'path', 'type': 'integer', 'format': 'int64', 'required': True, 'minimum': '0',
                                     'maximum': '1', 'defaultValue': 0, 'allowMultiple': False},
                                    {'name': 'q', 'paramType': 'query', 'type': 'array', 'items': {'type': 'string'}, 'uniqueItems': False, 'enum': ['']}]},
                    {'method': 'DELETE', 'nickname': 'd', 'type': 'array', 'items': {'$ref': 'M'}, 'parameters': [], 'deprecated': 'false'}]}],
                'models': {'M': {'id': 'M', 'description': '', 'required': ['a/b'], 'discriminator': 'a/b', 'subTypes': ['N'],
                                 'properties': {'a/b': {'type': 'string', 'description': '', 'defaultValue': ''}, 'r': {'$ref': 'N'},
                                                'l': {'type': 'array', 'items': {'$ref': 'N', 'format': ''}, 'uniqueItems': True}}},
                           'N': {'id': 'N', 'properties': {}}}}
    return lst, {'pet': api('pet'), 'st': api('st')}


def edits12():
    lst, apis = listing()
    yield lst, apis
    for toks, kind, val, parent in spec.places(lst, 'ResourceListing', '1.2'):
        if toks and toks[0] != 'swaggerVersion' and toks[-1] != 'path' and kind == 'any':
            for new in ('', 'x', 0, False):
                yield docs.edited(lst, toks, lambda v: new), apis
    for toks, kind, val, parent in spec.places(apis['pet'], 'ApiDeclaration', '1.2'):
        if toks and toks[0] != 'swaggerVersion' and kind == 'any':
            for new in ('', 'x', 0, False):
                yield lst, dict(apis, pet=docs.edited(apis['pet'], toks, lambda v: new))


def check12(st, lst, apis):
    st.state(['1.2', lst, apis])
    st.trans()
    root = 'http://h/api-docs/resource_list.json'
    app = MemApp(dict([(root, copy.deepcopy(lst))] + [('http://h/api-docs/' + k, copy.deepcopy(v)) for k, v in apis.items()]), root)
    try:
        agree(app.raw.dump(), lst, 'ResourceListing', '1.2', [])
        expect_eq(sorted(app.raw.cached_apis), sorted(apis), 'resources loaded')
        for k in apis:
            agree(app.raw.cached_apis[k].dump(), apis[k], 'ApiDeclaration', '1.2', [k])
    except Fail as e:
        raise Fail('%s\nwhile loading 1.2 documents %s %s' % (e, short(lst, 1500), short(apis, 3000)))
    st.trace()
