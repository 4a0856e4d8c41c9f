"""Bounded enumeration of instances of the object types of spec.TABLES."""
import itertools
import spec

REQ = {'3.0.0': {'Info': {'title': 't', 'version': 'v'}, 'License': {'name': 'n'}, 'Server': {'url': 'u'}, 'ServerVariable': {'default': 'd'},
                 'Parameter': {'name': 'n', 'in': 'query'}, 'RequestBody': {'content': {}}, 'Response': {'description': 'd'},
                 'OAuthFlow': {'scopes': {}}, 'SecurityScheme': {'type': 't'}, 'Tag': {'name': 'n'}, 'ExternalDocumentation': {'url': 'u'},
                 'Reference': {'$ref': '#/x'}, 'OpenApi': {'openapi': '3.0.0'}},
       '2.0': {'Reference': {'$ref': '#/x'}, 'Swagger': {'swagger': '2.0'}},
       '1.2': {'ResourceListing': {'swaggerVersion': '1.2', 'apis': []}, 'ApiDeclaration': {'swaggerVersion': '1.2', 'basePath': 'b', 'apis': []},
               'Implicit': {'loginEndpoint': {'url': 'u'}}, 'Model': {'id': 'i', 'properties': {}}, 'Scope': {'scope': 's'},
               'LoginEndpoint': {'url': 'u'}, 'TokenRequestEndpoint': {'url': 'u'}, 'TokenEndpoint': {'url': 'u'},
               'Parameter': {'paramType': 'query', 'name': 'n'}, 'Operation': {'method': 'GET', 'nickname': 'n'}, 'Api': {'path': 'p'},
               'ResponseMessage': {'code': 1, 'message': 'm'}, 'Info': {'title': 't', 'description': 'd'}}}
ANY = [False, 'x', 0, '', 1.5, [0, {'a': ''}], {'k': {'$ref': '#/x', 'z/~': 0}}, [], {}, True]
NAMES = ['a/b', '200', 'default', 'm~n', '~1', 'a', 'ab', '0', 'x y', 'get', u'\u00e9', '$ref', 'a.b', 'title', 'items', '-1', 'x-y', '#', '%41', '/', '~']


def minimal(version, name):
    import copy
    return copy.deepcopy(REQ[version].get(name, {}))


def types(version):
    return [n for n in sorted(spec.TABLES[version]) if spec.TABLES[version][n] is not None]


def full(version, name):
    """every member set, to plain values and minimal objects"""
    d = minimal(version, name)
    for i, (k, shape) in enumerate(sorted(spec.TABLES[version][name].items())):
        if k not in d and not (k == '$ref'):
            d[k] = values(version, shape, i)[0]
    return d


def values(version, shape, salt=0):
    """a few values of a shape, most telling first"""
    if shape == 'any':
        return ANY[salt % 6:6] + ANY[:salt % 6] + ANY[6:]
    if shape == 'str':
        return ['x', '']
    if isinstance(shape, list):
        kind, sub = shape
        if kind == 'bool':
            return [False, True] + values(version, sub, salt)[:2]
        vs = values(version, sub, salt)
        if kind == 'list':
            return [[vs[0]], [vs[-1], vs[0]], [], [vs[0]] * 12]
        n = NAMES[salt % len(NAMES):] + NAMES[:salt % len(NAMES)]
        return [{n[0]: vs[0]}, {n[1]: vs[-1], n[2]: vs[0]}, {}, dict((x, vs[i % len(vs)]) for i, x in enumerate(n))]
    name = shape.rstrip('*')
    if spec.TABLES[version][name] is None:          # Callback
        return [{'{$url}/x': {'get': {}}}, {}, {'a/~': {'$ref': '#/x'}, 'b': {}}] + ([{'$ref': '#/x'}] if shape.endswith('*') else [])
    tab = spec.TABLES[version][name]
    rich = minimal(version, name)
    for i, (k, s) in enumerate(sorted(tab.items())):
        if s in ('any', ) and k not in rich and k != '$ref':
            rich[k] = ANY[(i + salt) % 6]
    return [rich, minimal(version, name)] + ([{'$ref': '#/x~1y'}] if shape.endswith('*') else [])


def subsets(version, name, k):
    """every instance with the required members and <= k further members, over all combinations of their values"""
    tab = spec.TABLES[version][name]
    req = minimal(version, name)
    members = sorted(m for m in tab)
    for n in range(0, k + 1):
        for combo in itertools.combinations(members, n):
            if n > 1 and '$ref' in combo and version == '3.0.0' and name not in ('PathItem', ):
                continue
            lim = {0: 1, 1: 99, 2: 4, 3: 2}[n]
            for vals in itertools.product(*[values(version, tab[m], i)[:lim] for i, m in enumerate(combo)]):
                d = dict(req)
                d.update(zip(combo, vals))
                if '$ref' in combo:
                    d['$ref'] = '#/x'
                yield d


def chains(version, name, depth):
    """every way to nest objects: (member path, instance) for paths of <= depth members starting at a type; one object per step"""
    tab = spec.TABLES[version][name]
    yield (), minimal(version, name)
    if depth == 0:
        return
    for m in sorted(tab):
        for leaf, wrap in slots(version, tab[m]):
            for path, inner in chains_of(version, leaf, depth - 1):
                d = minimal(version, name)
                d[m] = wrap(inner, len(path) + len(m))
                yield (m, ) + path, d


def chains_of(version, leaf, depth):
    if leaf.endswith('*'):
        yield ('$ref', ), {'$ref': '#/x'}
        leaf = leaf[:-1]
    if spec.TABLES[version][leaf] is None:
        for path, inner in chains(version, 'PathItem', depth):
            yield path, {NAMES[depth]: inner, NAMES[depth + 5]: {}}
        return
    for x in chains(version, leaf, depth):
        yield x


def slots(version, shape):
    """(object type, wrapping function) for the shapes that hold objects"""
    if isinstance(shape, list):
        kind, sub = shape
        for leaf, w in slots(version, sub):
            if kind == 'bool':
                yield leaf, w
            elif kind == 'list':
                yield leaf, lambda x, i, w=w: [w(x, i + 1)]
                yield leaf, lambda x, i, w=w: [w(minimal(version, leaf.rstrip('*')), i)] * 0 + [w(_min(version, leaf), i) for _ in range(10)] + [w(x, i + 1)]
            else:
                yield leaf, lambda x, i, w=w: {NAMES[i % len(NAMES)]: w(x, i + 1)}
                yield leaf, lambda x, i, w=w: {NAMES[(i + 3) % len(NAMES)]: w(x, i + 1), NAMES[(i + 4) % len(NAMES)]: w(_min(version, leaf), i)}
    elif shape not in ('any', 'str'):
        yield shape, lambda x, i: x


def _min(version, leaf):
    leaf = leaf.rstrip('*')
    return {} if spec.TABLES[version][leaf] is None else minimal(version, leaf)
