"""Documents and edits shared by the checks: rich 2.0 / 3.0 documents, enumeration of their nodes and of
single edits, and small helpers on raw JSON values (the reference models never use pyopenapi)."""
import copy

NAMES = ['a/b', 'm~n', '~1', 'a', 'ab', '0', 'x y', 'get', u'\u00e9', '$ref%', 'a.b', '']


def esc(name):
    return name.replace('~', '~0').replace('/', '~1')


def unesc(tok):
    return tok.replace('~1', '/').replace('~0', '~')


def pointer(toks):
    return '/'.join(['#'] + [esc(t) for t in toks])


def tokens(jp):
    """tokens of a pointer, with or without leading '#'"""
    if jp in ('', '#', None):
        return []
    t = [unesc(x) for x in jp.split('/')]
    return t[1:] if t[0] in ('#', '') else t


MISSING = type('Missing', (), {'__repr__': lambda s: '<missing>'})()


def walk(doc, toks):
    for t in toks:
        if isinstance(doc, dict) and t in doc:
            doc = doc[t]
        elif isinstance(doc, list) and t.isdigit() and int(t) < len(doc):
            doc = doc[int(t)]
        else:
            return MISSING
    return doc


def nodes(doc, toks=()):
    """every (tokens, value) in the document, root first"""
    yield list(toks), doc
    if isinstance(doc, dict):
        for k in doc:
            for x in nodes(doc[k], tuple(toks) + (k, )):
                yield x
    elif isinstance(doc, list):
        for i, v in enumerate(doc):
            for x in nodes(v, tuple(toks) + (str(i), )):
                yield x


def edited(doc, toks, fn):
    """copy of doc where the value at toks is replaced by fn(value); MISSING removes it"""
    doc = copy.deepcopy(doc)
    if not toks:
        return fn(doc)
    parent = walk(doc, toks[:-1])
    key = toks[-1] if isinstance(parent, dict) else int(toks[-1])
    if isinstance(parent, dict) and key not in parent:
        parent[key] = fn(MISSING)
        return doc
    new = fn(parent[key])
    if new is MISSING:
        del parent[key]
    else:
        parent[key] = new
    return doc


def schema(k=0):
    return {'type': 'object', 'title': 't%d' % k, 'required': ['a/b', 'n'],
            'properties': {'a/b': {'type': 'array', 'items': {'type': 'string', 'enum': ['u', 'v']}},
                           'n': {'type': 'integer', 'minimum': 0, 'default': 0}},
            'allOf': [{'title': 'x'}, {'properties': {'~': {'type': 'string', 'example': {'k': [1, {'z': ''}]}}}}],
            'additionalProperties': {'type': 'boolean'}, 'xml': {'name': 'n', 'attribute': False},
            'externalDocs': {'url': 'u', 'description': ''}}


def op2(k=''):
    return {'operationId': 'op' + k, 'summary': '', 'deprecated': False, 'tags': ['u', 't'], 'consumes': ['application/json'],
            'produces': ['application/json', 'text/plain'], 'schemes': ['https'],
            'parameters': [{'name': 'q', 'in': 'query', 'type': 'array', 'items': {'type': 'array', 'items': {'type': 'string'}},
                            'required': False, 'collectionFormat': 'multi'},
                           {'name': 'b', 'in': 'body', 'schema': {'type': 'object', 'properties': {'p~/q': {'type': 'string'}}}}],
            'responses': {'200': {'description': '', 'schema': {'$ref': '#/definitions/A~1b'},
                                  'headers': {'X-a/b': {'type': 'array', 'items': {'type': 'integer'}}},
                                  'examples': {'application/json': {'a': [0, False, '']}}},
                          'default': {'$ref': '#/responses/R~0~1'}},
            'security': [{'k/1': []}, {'o': ['r', 'w']}], 'externalDocs': {'url': 'u'}}


def doc2():
    return {'swagger': '2.0', 'host': 'h.com', 'basePath': '/v1', 'schemes': ['https', 'http'], 'consumes': ['application/json'],
            'produces': ['application/json'],
            'info': {'title': 'T', 'version': '0', 'description': '', 'termsOfService': 's',
                     'contact': {'name': 'n', 'url': 'u', 'email': 'e'}, 'license': {'name': 'l', 'url': 'u'}},
            'paths': {'/a/{b}': {'parameters': [{'name': 'b', 'in': 'path', 'type': 'string', 'required': True},
                                                {'$ref': '#/parameters/P~1q'}], 'get': op2('1'), 'put': op2('2')},
                      '/~': {'delete': op2('3')}},
            'definitions': {'A/b': schema(1), 'm~n': schema(2), 'Plain': {'$ref': '#/definitions/m~0n'}},
            'parameters': {'P/q': {'name': 'q', 'in': 'header', 'type': 'string', 'description': 'd'}},
            'responses': {'R~/': {'description': 'd', 'headers': {'h': {'type': 'string'}}}},
            'securityDefinitions': {'k/1': {'type': 'apiKey', 'name': 'k', 'in': 'header'},
                                    'o': {'type': 'oauth2', 'flow': 'implicit', 'authorizationUrl': 'a', 'scopes': {'r/w': 'd', 'w': ''}}},
            'security': [{'o': ['w']}], 'tags': [{'name': 't', 'description': '', 'externalDocs': {'url': 'u'}}],
            'externalDocs': {'url': 'u', 'description': 'd'}}


def media():
    return {'schema': {'type': 'object', 'properties': {'f/1': {'type': 'string'}, 'g': {'$ref': '#/components/schemas/A~1b'}}},
            'examples': {'e~': {'summary': 's', 'value': {'a': 0}}, 'r': {'$ref': '#/components/examples/E'}},
            'encoding': {'f/1': {'contentType': 'text/plain', 'style': 'form', 'explode': False,
                                 'headers': {'h/': {'schema': {'type': 'string'}}}}}}


def op3(k=''):
    return {'operationId': 'op' + k, 'summary': '', 'deprecated': False, 'tags': ['u', 't'],
            'parameters': [{'name': 'q', 'in': 'query', 'required': False, 'style': 'form', 'explode': True,
                            'schema': {'type': 'array', 'items': {'type': 'string'}}, 'example': 0},
                           {'$ref': '#/components/parameters/P~1q'}],
            'requestBody': {'description': '', 'required': False, 'content': {'application/json': media()}},
            'responses': {'200': {'description': '', 'content': {'a/b': media()}, 'headers': {'X/a': {'schema': {'type': 'string'}}},
                                  'links': {'l/': {'operationId': 'x', 'parameters': {'p~': 'v'}, 'server': {'url': 's'}}}},
                          'default': {'$ref': '#/components/responses/R~0~1'}},
            'security': [{'k/1': []}, {'o': ['r', 'w']}], 'externalDocs': {'url': 'u'},
            'servers': [{'url': 'http://s', 'description': '', 'variables': {'v/': {'default': 'd', 'enum': ['d', 'e']}}}],
            'callbacks': {'cb/': {'{$request.body#/u}': {'post': {'responses': {'200': {'description': ''}}}}}}}


def doc3():
    return {'openapi': '3.0.0', 'info': {'title': 'T', 'version': '0', 'description': '', 'termsOfService': 's',
                                         'contact': {'name': 'n', 'url': 'u', 'email': 'e'}, 'license': {'name': 'l', 'url': 'u'}},
            'servers': [{'url': '/'}],
            'paths': {'/a/{b}': {'summary': '', 'description': 'd', 'servers': [{'url': 'http://p'}],
                                 'parameters': [{'name': 'b', 'in': 'path', 'required': True, 'content': {'a/b': {'schema': {'type': 'string'}}}}],
                                 'get': op3('1'), 'trace': op3('2')}, '/~': {'patch': op3('3')}},
            'components': {'schemas': {'A/b': dict(schema(1), oneOf=[{'type': 'string'}], anyOf=[{'$ref': '#/components/schemas/m~0n'}],
                                                   nullable=False, **{'not': {'type': 'integer'}}),
                                       'm~n': dict(schema(2), discriminator={'propertyName': 'p', 'mapping': {'x/y': 'z'}}),
                                       'Plain': {'$ref': '#/components/schemas/m~0n'}},
                           'parameters': {'P/q': {'name': 'q', 'in': 'header', 'schema': {'type': 'string'}}},
                           'responses': {'R~/': {'description': 'd'}},
                           'examples': {'E': {'summary': 's', 'externalValue': 'x'}},
                           'requestBodies': {'B/': {'content': {'x/y': media()}}},
                           'headers': {'H~': {'description': 'h', 'schema': {'type': 'string'}, 'examples': {'e': {'value': 1}}}},
                           'securitySchemes': {'k/1': {'type': 'apiKey', 'name': 'k', 'in': 'header'},
                                               'o': {'type': 'oauth2', 'flows': {'implicit': {'authorizationUrl': 'a', 'scopes': {'r/w': 'd', 'w': ''}}}}},
                           'links': {'L': {'operationRef': 'r', 'description': ''}},
                           'callbacks': {'C/': {'{$url}/x': {'get': {'responses': {'200': {'description': ''}}}}}}},
            'security': [{'o': ['w']}], 'tags': [{'name': 't', 'description': '', 'externalDocs': {'url': 'u'}}],
            'externalDocs': {'url': 'u', 'description': 'd'}}
