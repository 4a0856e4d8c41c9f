"""Object tables of Swagger 1.2, Swagger 2.0 and OpenAPI 3.0.0, written from the specifications.

shape:  'any' any JSON value | 'str' string | 'T' object of type T | 'T*' object of type T or a reference
        ['list', shape] | ['map', shape] | ['bool', shape] boolean or shape
"""
import docs


def L(s):
    return ['list', s]


def M(s):
    return ['map', s]


BASE = ('type format default maximum exclusiveMaximum minimum exclusiveMinimum maxLength minLength maxItems minItems '
        'multipleOf enum pattern uniqueItems')


def T(fields='', **children):
    t = dict((f, 'any') for f in fields.split())
    t.update((k.replace('_', '-'), v) for k, v in children.items())
    return t


V2 = {
    'Swagger': T('swagger host basePath', info='Info', schemes=L('str'), consumes=L('str'), produces=L('str'), paths=M('PathItem'),
                 definitions=M('Schema'), parameters=M('Parameter'), responses=M('Response'), securityDefinitions=M('SecurityScheme'),
                 security=L(M(L('str'))), tags=L('Tag'), externalDocs='ExternalDocumentation'),
    'Info': T('title version description termsOfService', contact='Contact', license='License'),
    'Contact': T('name url email'),
    'License': T('name url'),
    'PathItem': dict(T('$ref', parameters=L('Parameter*')), **dict((m, 'Operation') for m in 'get put post delete options head patch'.split())),
    'Operation': T('operationId summary description deprecated', tags=L('str'), externalDocs='ExternalDocumentation', consumes=L('str'),
                   produces=L('str'), schemes=L('str'), parameters=L('Parameter*'), responses=M('Response*'), security=L(M(L('str')))),
    'ExternalDocumentation': T('url description'),
    'Parameter': T('name in required description collectionFormat allowEmptyValue ' + BASE, schema='Schema', items='Items'),
    'Items': T('collectionFormat ' + BASE, items='Items'),
    'Header': T('description collectionFormat ' + BASE, items='Items'),
    'Response': T('description examples', schema='Schema', headers=M('Header')),
    'Schema': T('$ref title description required maxProperties minProperties discriminator readOnly example ' + BASE, items='Schema',
                allOf=L('Schema'), properties=M('Schema'), additionalProperties=['bool', 'Schema'], xml='XMLObject',
                externalDocs='ExternalDocumentation'),
    'XMLObject': T('name namespace prefix attribute wrapped'),
    'Tag': T('name description', externalDocs='ExternalDocumentation'),
    'SecurityScheme': T('type description name in flow authorizationUrl tokenUrl', scopes=M('str')),
    'Reference': T('$ref'),
}

MEDIA3 = dict(T('description required deprecated allowEmptyValue style explode allowReserved example', schema='Schema*',
                examples=M('Example*'), content=M('MediaType')))
V3 = {
    'OpenApi': T('openapi', info='Info', servers=L('Server'), paths=M('PathItem'), components='Components', security=L(M(L('str'))),
                 tags=L('Tag'), externalDocs='ExternalDocumentation'),
    'Info': T('title description termsOfService version', contact='Contact', license='License'),
    'Contact': T('name url email'),
    'License': T('name url'),
    'Server': T('url description', variables=M('ServerVariable')),
    'ServerVariable': T('default description', enum=L('str')),
    'Components': T('', schemas=M('Schema*'), responses=M('Response*'), parameters=M('Parameter*'), examples=M('Example*'),
                    requestBodies=M('RequestBody*'), headers=M('Header*'), securitySchemes=M('SecurityScheme*'), links=M('Link*'),
                    callbacks=M('Callback*')),
    'PathItem': dict(T('$ref summary description', servers=L('Server'), parameters=L('Parameter*')),
                     **dict((m, 'Operation') for m in 'get put post delete options head patch trace'.split())),
    'Operation': T('summary description operationId deprecated', tags=L('str'), externalDocs='ExternalDocumentation', parameters=L('Parameter*'),
                   requestBody='RequestBody*', responses=M('Response*'), callbacks=M('Callback*'), security=L(M(L('str'))), servers=L('Server')),
    'ExternalDocumentation': T('url description'),
    'Parameter': dict(MEDIA3, **T('name in')),
    'Header': MEDIA3,
    'RequestBody': T('description required', content=M('MediaType')),
    'MediaType': T('example', schema='Schema*', examples=M('Example*'), encoding=M('Encoding')),
    'Encoding': T('contentType style explode allowReserved', headers=M('Header*')),
    'Response': T('description', headers=M('Header*'), content=M('MediaType'), links=M('Link*')),
    'Callback': None,           # a map of path items
    'Example': T('summary description value externalValue'),
    'Link': T('operationRef operationId requestBody description', parameters=M('any'), server='Server'),
    'Tag': T('name description', externalDocs='ExternalDocumentation'),
    'Reference': T('$ref'),
    'Schema': dict(T('title multipleOf maximum exclusiveMaximum minimum exclusiveMinimum maxLength minLength pattern maxItems minItems '
                     'uniqueItems maxProperties minProperties required enum type description format default nullable readOnly writeOnly '
                     'example deprecated', allOf=L('Schema*'), oneOf=L('Schema*'), anyOf=L('Schema*'), items='Schema*',
                     properties=M('Schema*'), additionalProperties=['bool', 'Schema*'], discriminator='Discriminator', xml='XML_',
                     externalDocs='ExternalDocumentation'), **{'not': 'Schema*'}),
    'Discriminator': T('propertyName', mapping=M('str')),
    'XML_': T('name namespace prefix attribute wrapped'),
    'SecurityScheme': T('type description name in scheme bearerFormat openIdConnectUrl', flows='OAuthFlows'),
    'OAuthFlows': T('', implicit='OAuthFlow', password='OAuthFlow', clientCredentials='OAuthFlow', authorizationCode='OAuthFlow'),
    'OAuthFlow': T('authorizationUrl tokenUrl refreshUrl', scopes=M('str')),
}

DT = 'type $ref format defaultValue enum minimum maximum uniqueItems'
V1 = {
    'ResourceListing': T('swaggerVersion apiVersion', apis=L('ResourceInListing'), info='Info', authorizations=M('Authorization')),
    'ResourceInListing': T('path description'),
    'Info': T('title description termsOfServiceUrl contact license licenseUrl'),
    'Authorization': T('type passAs keyname', scopes=L('Scope'), grantTypes='GrantTypes'),
    'Scope': T('scope description'),
    'GrantTypes': {'implicit': 'Implicit', 'authorization_code': 'AuthorizationCode'},
    'Implicit': T('tokenName', loginEndpoint='LoginEndpoint'),
    'LoginEndpoint': T('url'),
    'AuthorizationCode': T('', tokenRequestEndpoint='TokenRequestEndpoint', tokenEndpoint='TokenEndpoint'),
    'TokenRequestEndpoint': T('url clientIdName clientSecretName'),
    'TokenEndpoint': T('url tokenName'),
    'ApiDeclaration': T('swaggerVersion apiVersion basePath resourcePath produces consumes', apis=L('Api'), models=M('Model'),
                        authorizations=M(L('Authorizations'))),
    'Authorizations': T('scope description'),
    'Api': T('path description', operations=L('Operation')),
    'Operation': T('method summary notes nickname produces consumes deprecated ' + DT, authorizations=M(L('Authorizations')),
                   parameters=L('Parameter'), responseMessages=L('ResponseMessage'), items='Items'),
    'Parameter': T('paramType name description required allowMultiple ' + DT, items='Items'),
    'ResponseMessage': T('code message responseModel'),
    'Items': T('type $ref format'),
    'Model': T('id description required subTypes discriminator', properties=M('Property')),
    'Property': T('description ' + DT, items='Items'),
}
TABLES = {'1.2': V1, '2.0': V2, '3.0.0': V3}


def classes(version):
    import importlib
    return importlib.import_module('pyopenapi.migration.versions.v%s.objects' % version.replace('.', '_'))


def cls(version, name):
    return getattr(classes(version), name)


def restrict(doc, shape, version):
    """the document restricted to what the specification defines (the expected dump)"""
    tab = TABLES[version]
    if isinstance(shape, list):
        kind, sub = shape
        if kind == 'bool':
            return doc if isinstance(doc, bool) else restrict(doc, sub, version)
        if kind == 'list':
            return [restrict(x, sub, version) for x in doc]
        return dict((k, restrict(v, sub, version)) for k, v in doc.items())
    if shape in ('any', 'str'):
        return doc
    name = kind_of(doc, shape)
    if tab[name] is None:
        return dict((k, restrict(v, 'PathItem', version)) for k, v in doc.items())
    return dict((k, restrict(v, tab[name][k], version)) for k, v in doc.items() if k in tab[name])


def kind_of(doc, shape):
    if shape.endswith('*'):
        return 'Reference' if '$ref' in doc else shape[:-1]
    return shape


def objects(doc, shape, version, toks=()):
    """yields (tokens, type name, raw) of every specification object in the document, outermost first"""
    tab = TABLES[version]
    if isinstance(shape, list):
        kind, sub = shape
        if kind == 'bool':
            if not isinstance(doc, bool):
                for x in objects(doc, sub, version, toks):
                    yield x
            return
        for k, v in (enumerate(doc) if kind == 'list' else doc.items()):
            for x in objects(v, sub, version, toks + (str(k), )):
                yield x
        return
    if shape in ('any', 'str'):
        return
    name = kind_of(doc, shape)
    if tab[name] is None:
        for k, v in doc.items():
            for x in objects(v, 'PathItem', version, toks + (k, )):
                yield x
        return
    yield list(toks), name, doc
    for k in tab[name]:
        if k in doc and doc[k] is not None:
            for x in objects(doc[k], tab[name][k], version, toks + (k, )):
                yield x


def places(doc, shape, version, toks=(), parent=None):
    """yields (tokens, kind, raw, enclosing tokens) of every node addressable in the loaded tree: objects, containers and
    plain values (plain values are opaque below, they are yielded with kind 'any')"""
    tab = TABLES[version]
    if isinstance(shape, list) and shape[0] == 'bool':
        if isinstance(doc, bool):
            yield list(toks), 'any', doc, parent
        else:
            for x in places(doc, shape[1], version, toks, parent):
                yield x
        return
    if isinstance(shape, list):
        yield list(toks), shape[0], doc, parent
        for k, v in (enumerate(doc) if shape[0] == 'list' else doc.items()):
            for x in places(v, shape[1], version, toks + (str(k), ), list(toks)):
                yield x
        return
    if shape in ('any', 'str'):
        for t, v in docs.nodes(doc, toks):
            yield t, 'any', v, parent
        return
    name = kind_of(doc, shape)
    yield list(toks), name, doc, parent
    if tab[name] is None:
        for k, v in doc.items():
            for x in places(v, 'PathItem', version, toks + (k, ), list(toks)):
                yield x
        return
    for k in tab[name]:
        if k in doc and doc[k] is not None:
            for x in places(doc[k], tab[name][k], version, toks + (k, ), list(toks)):
                yield x
