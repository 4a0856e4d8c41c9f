"""C17: a failure while loading, migrating or resolving never turns into a wrong result.

Explored: for a family of APIs spread over several documents and scripts of calls on them, every position of the fetch sequence x every
kind of failure, then every pair of positions, including failures of the retries; also failures of the application's own hook.
The call in progress has to raise, the calls without a failure must not, and once a call is repeated without a failure everything
equals the run without failures: content, what references carry (compared coinductively), and what the application answers afterwards.
"""
import copy
from bisim import Bisim
from core import Fail, expect, short
from env import BaseApp, memory_resolver
from graph import real
from pyopenapi.migration.versions.v2_0 import objects as v2
from pyopenapi.migration.versions.v3_0_0 import objects as v3

ID, LEVEL = 'C17', 'model_checking'
RULE = ('a state is a position of the fetch (or hook) sequence of a script together with the failures injected so far, a transition is a '
        'call of the script or its repetition; failures are injected at every position up to the bound on their number')
BOUNDS = {'quick': 'all single failures (11 kinds, and 3 well-formed bodies that are not the document, when retrying at once, 3 otherwise) and all pairs of positions in 9 scripts over 4 families of 3 to 6 documents; retrying at once, after the other calls, or from the start',
          'thorough': 'also all pairs with 4 kinds and all triples of positions'}
ASSUMPTIONS = ['a document that is replaced by another well-formed document is not a failure that can be noticed', 'failures are over when the call is repeated (or hit the repetition too)']

R = 'http://h/d/root.json'


class Broken(IOError):
    pass


def two():
    op = {'operationId': 'x', 'responses': {'200': {'$ref': 'c.json#/r/Q'}, '201': {'description': 'd', 'schema': {'$ref': 'b.json#/definitions/A'}}}}
    return {
        R: {'swagger': '2.0', 'host': 'h', 'info': {'title': 'R', 'version': '1'},
            'paths': {'/a': {'get': dict(op, parameters=[{'$ref': 'c.json#/p/H'}])}, '/b': {'$ref': 'e.json#/i/x~1'}},
            'definitions': {'A': {'title': 'rA', 'properties': {'b': {'$ref': 'b.json#/definitions/A'}, 'l': {'$ref': '#/definitions/L'}}}, 'L': {'title': 'rL', 'items': {'$ref': 'b.json#/definitions/Z'}}}},
        'http://h/d/b.json': {'definitions': {'A': {'title': 'bA', 'properties': {'c': {'$ref': 'c.json#/definitions/A'}, 'back': {'$ref': 'root.json#/definitions/L'}}}, 'Z': {'title': 'bZ', 'allOf': [{'$ref': 'c.json#/definitions/Z'}]}}},
        'http://h/d/c.json': {'definitions': {'A': {'title': 'cA', 'items': {'$ref': 'f.json#/x'}}, 'Z': {'title': 'cZ', 'items': {'$ref': 'b.json#/definitions/Z'}}},
                              'p': {'H': {'name': 'H', 'in': 'header', 'type': 'string'}}, 'r': {'Q': {'description': 'q', 'schema': {'$ref': '#/definitions/A'}}}},
        'http://h/d/e.json': {'i': {'x/': {'get': {'operationId': 'e', 'responses': {'200': {'description': 'e', 'schema': {'$ref': 'f.json#/y'}}}}}}},
        'http://h/d/f.json': {'x': {'title': 'fx'}, 'y': {'title': 'fy', 'properties': {'r': {'$ref': 'root.json#/definitions/A'}}}},
        'http://h/d/g.json': {'swagger': '2.0', 'info': {'title': 'G', 'version': '1'}, 'paths': {}, 'definitions': {'A': {'title': 'gA', 'items': {'$ref': 'f.json#/y'}}, 'B': {'title': 'gB', 'items': {'$ref': 'b.json#/definitions/A'}}}},
    }


def three():
    res = {'200': {'$ref': 'c.json#/components/responses/Q'}, '201': {'description': 'd', 'content': {'a/b': {'schema': {'$ref': 'b.json#/components/schemas/A'}}}}}
    return {
        R: {'openapi': '3.0.0', 'info': {'title': 'R', 'version': '1'},
            'paths': {'/a': {'get': {'operationId': 'x', 'responses': res, 'parameters': [{'$ref': 'c.json#/components/parameters/H'}], 'requestBody': {'$ref': 'e.json#/b'},
                                     'callbacks': {'k': {'$ref': 'e.json#/k'}}}}, '/b': {'$ref': 'e.json#/i/x~1'}},
            'components': {'schemas': {'A': {'title': 'rA', 'properties': {'b': {'$ref': 'b.json#/components/schemas/A'}, 'l': {'$ref': '#/components/schemas/L'}}}, 'L': {'title': 'rL', 'not': {'$ref': 'b.json#/components/schemas/Z'}},
                                       'X': {'$ref': 'b.json#/components/schemas/R1'}}}},
        'http://h/d/b.json': {'components': {'schemas': {'A': {'title': 'bA', 'properties': {'c': {'$ref': 'c.json#/components/schemas/A'}, 'back': {'$ref': 'root.json#/components/schemas/L'}}},
                                                         'Z': {'title': 'bZ', 'allOf': [{'$ref': 'c.json#/components/schemas/Z'}]}, 'R1': {'$ref': 'f.json#/r2'}}}},
        'http://h/d/c.json': {'components': {'schemas': {'A': {'title': 'cA', 'items': {'$ref': 'f.json#/x'}}, 'Z': {'title': 'cZ', 'items': {'$ref': 'b.json#/components/schemas/Z'}}},
                                             'parameters': {'H': {'name': 'H', 'in': 'header', 'schema': {'$ref': 'f.json#/x'}}}, 'responses': {'Q': {'description': 'q', 'content': {'a/b': {'schema': {'$ref': '#/components/schemas/A'}}}}}}},
        'http://h/d/e.json': {'i': {'x/': {'get': {'operationId': 'e', 'responses': {'200': {'description': 'e', 'content': {'a/b': {'schema': {'$ref': 'f.json#/y'}}}}}}}},
                              'b': {'content': {'a/b': {'schema': {'$ref': 'f.json#/y'}}}}, 'k': {'{$url}': {'post': {'operationId': 'k', 'responses': {'200': {'$ref': 'c.json#/components/responses/Q'}}}}}},
        'http://h/d/f.json': {'x': {'title': 'fx'}, 'y': {'title': 'fy', 'properties': {'r': {'$ref': 'root.json#/components/schemas/A'}}}, 'r2': {'$ref': 'c.json#/components/schemas/A'}},
        'http://h/d/g.json': {'openapi': '3.0.0', 'info': {'title': 'G', 'version': '1'}, 'paths': {}, 'components': {'schemas': {'A': {'title': 'gA', 'items': {'$ref': 'f.json#/y'}}, 'B': {'title': 'gB', 'items': {'$ref': 'b.json#/components/schemas/A'}}}}},
    }


def one():
    def decl(n):
        return {'swaggerVersion': '1.2', 'basePath': 'http://h/v1', 'resourcePath': '/' + n,
                'apis': [{'path': '/%s/{i}' % n, 'operations': [{'method': 'GET', 'nickname': n, 'type': 'M', 'parameters': [{'paramType': 'path', 'name': 'i', 'type': 'string', 'required': True}]}]}],
                'models': {'M': {'id': 'M', 'properties': {'k': {'$ref': 'N'}}}, 'N': {'id': 'N', 'properties': {'s': {'type': 'string'}}}}}
    return {R: {'swaggerVersion': '1.2', 'apiVersion': '1', 'info': {'title': 't', 'description': 'd'}, 'apis': [{'path': '/pet'}, {'path': '/user'}, {'path': '/store'}]},
            'http://h/d/pet': decl('pet'), 'http://h/d/user': decl('user'), 'http://h/d/store': decl('store')}


B, C, E, G = ['http://h/d/%s.json' % x for x in 'bceg']
# calls: ('load', url) | ('migrate', version) the root | ('resolve', jref, type, version)
SCRIPTS = {
    '2': (two, '2.0', [('load', R), ('migrate', '2.0'), ('resolve', G, None, '2.0'), ('resolve', B + '#/definitions/A', 'Schema', '2.0')]),
    '2 parts': (two, '2.0', [('load', R), ('resolve', G + '#/definitions/A', 'Schema', '2.0'), ('resolve', B + '#/definitions/Z', 'Schema', '2.0'), ('resolve', G, None, '2.0'), ('migrate', '2.0')]),
    '2>3': (two, '2.0', [('load', R), ('migrate', '3.0.0'), ('resolve', G, None, '3.0.0'), ('resolve', B + '#/definitions/A', 'Schema', '3.0.0')]),
    '2>2>3': (two, '2.0', [('load', R), ('migrate', '2.0'), ('migrate', '3.0.0'), ('resolve', G + '#/definitions/B', 'Schema', '3.0.0')]),
    '2>3 parts': (two, '2.0', [('load', R), ('resolve', E + '#/i/x~1', 'PathItem', '3.0.0'), ('resolve', G + '#/definitions/A', 'Schema', '3.0.0'), ('resolve', G, None, '3.0.0'), ('migrate', '3.0.0')]),
    '3': (three, '3.0.0', [('load', R), ('migrate', '3.0.0'), ('resolve', G, None, '3.0.0'), ('resolve', B + '#/components/schemas/A', 'Schema', '3.0.0')]),
    '3 parts': (three, '3.0.0', [('load', R), ('resolve', G + '#/components/schemas/A', 'Schema', '3.0.0'), ('resolve', E + '#/b', 'RequestBody', '3.0.0'), ('resolve', G, None, '3.0.0'), ('migrate', '3.0.0')]),
    '1>2': (one, '1.2', [('load', R), ('migrate', '2.0')]),
    '1>3': (one, '1.2', [('load', R), ('migrate', '3.0.0')]),
}
# asked at the end
PROBES = {'2.0': [(B + '#/definitions/Z', 'Schema'), (C + '#/definitions/A', 'Schema'), (C + '#/p/H', 'Parameter'), (C + '#/r/Q', 'Response'), (E + '#/i/x~1', 'PathItem'), (G + '#/definitions/B', 'Schema'), ('http://h/d/f.json#/y', 'Schema')],
          '3.0.0': [(B + '#/components/schemas/Z', 'Schema'), (C + '#/components/schemas/A', 'Schema'), (C + '#/components/parameters/H', 'Parameter'), (C + '#/components/responses/Q', 'Response'), (E + '#/i/x~1', 'PathItem'), (E + '#/b', 'RequestBody'),
                    (G + '#/components/schemas/B', 'Schema'), ('http://h/d/f.json#/y', 'Schema')], '1.2': []}
KINDS = ['raise', 'none', 'empty', 'empty text', 'garbage', 'cut', 'cut yaml', 'scalar', 'html', 'bad bytes', 'number']
# well-formed answers that are not the document asked for: nothing tells them apart when they arrive, but they never become a result
BODIES = {'error body': {'code': 404, 'message': 'not found'}, 'other version': {'swagger': '2.0', 'swaggerVersion': '2.0', 'info': {'title': 'o', 'version': '1'}, 'paths': {}},
          'a list': [{'code': 404}]}
RETRIES = ['at once', 'others first', 'from the start']


def fault_value(kind, doc):
    import json
    if kind == 'raise':
        raise Broken('unreachable')
    if kind in BODIES:
        return copy.deepcopy(BODIES[kind])
    return {'none': None, 'empty': {}, 'empty text': '', 'garbage': '}{', 'cut': json.dumps(doc)[:-3], 'cut yaml': '\n' + json.dumps(doc)[:-3], 'scalar': 'not a document',
            'html': '<html><body>Bad gateway</body></html>', 'bad bytes': b'{"\xff\xfe": 1}', 'number': 17}[kind] if kind != 'none' else 0.5


class App(BaseApp):
    """counts what happens: fetches and hook calls are positions at which something may fail"""

    def __init__(self, ds, faults):
        self.ds, self.faults = ds, dict(faults)
        self.n, self.fired, self.hooks, self.log = 0, 0, 0, []
        super(App, self).__init__(R, resolver=memory_resolver(ds, self.log, self.fetch))

    def fetch(self, i, url):
        self.n += 1
        kind = self.faults.pop('f%d' % i, None)
        if kind is not None:
            self.fired += 1
            v = fault_value(kind, self.ds.get(url))
            return b'' if v is None else v

    def prepare_obj(self, obj, jref):
        kind = self.faults.pop('h%d' % self.hooks, None)
        self.hooks += 1
        if kind is not None:
            self.fired += 1
            raise Broken('hook')
        return obj


def perform(app, call, got, version):
    if call[0] == 'load':
        return app.load_obj(call[1])
    if call[0] == 'migrate':
        return app.migrate_obj(got[0], R, call[1])
    tab = v3 if version == '3.0.0' else v2
    return real(app.resolve_obj(call[1], version, parser=getattr(tab, call[2]) if call[2] else None, to_spec_version=call[3])[0])


def play(name, faults, retry, st, order=None):
    """results of all calls of the script (in this order)"""
    family, version, script = SCRIPTS[name]
    ds = family()
    app = App(copy.deepcopy(ds), faults)
    got, todo, tries, done = {}, list(order or range(len(script))), 0, []
    held = []
    while todo:
        i = todo.pop(0)
        before = app.fired
        st.trans()
        try:
            r = perform(app, script[i], got, version)
        except Exception as e:
            if app.fired == before:
                raise Fail('call %d %s fails without a reason: %s(%s)' % (i, script[i], type(e).__name__, e))
            tries += 1
            expect(tries < 9, 'endless')
            if i == 0 or retry == 'at once':
                todo.insert(0, i)
            elif retry == 'others first':
                todo.append(i)
            else:
                todo = list(range(i + 1)) + todo
            continue
        expect(app.fired == before, 'call %d %s returns %s although something failed', i, script[i], short(r))
        expect(r is not None, 'call %d returns nothing', i)
        got[i] = r
        done.append(i)
        held.append((i, r))
    app.at_end = app.n, app.hooks
    for k, (jref, kind) in enumerate(PROBES[version]):
        app.faults = {}
        to = script[-1][-1]
        got[len(script) + k] = real(app.resolve_obj(jref, version, parser=getattr(v2 if version == '2.0' else v3, kind), to_spec_version=to)[0])
    return app, got, held, done


def cases(tier):
    for name in sorted(SCRIPTS):
        for retry in RETRIES:
            for k in KINDS if tier == 'thorough' or retry == 'at once' else ['raise', 'scalar', 'cut']:
                yield [name, retry, 'one', k]
            if retry == 'at once':
                for k in sorted(BODIES):
                    if k != 'other version' or name[0] == '1':
                        yield [name, retry, 'body', k]
            yield [name, retry, 'hook', 'hook']
            yield [name, retry, 'two', 'raise']
            if tier == 'thorough':
                for k in ('empty', 'garbage', 'scalar'):
                    yield [name, retry, 'two', k]
                yield [name, retry, 'hooks', 'hook']
                yield [name, retry, 'three', 'raise']


def bodies(name, kind, n, st):
    family, version, script = SCRIPTS[name]
    for i in range(1 if kind == 'other version' else 0, n):
        st.state([name, kind, i])
        app = App(family(), {'f%d' % i: kind})
        got = {}
        for k, call in enumerate(script):
            st.trans()
            try:
                got[k] = perform(app, call, got, version)
            except Exception:
                break
        else:
            raise Fail('script %s: every call succeeds although fetch %d was answered with %s' % (name, i, BODIES[kind]))
        st.trace()


def run(case, st):
    name, retry, how, kind = case[:4]
    plain = {}
    keep, want, _, order = plain[()] = play(name, {}, retry, st)
    plain[tuple(order)] = plain[()]
    n, h = keep.at_end
    if how == 'body':
        bodies(name, kind, n, st)
        todo = []
    elif how == 'one':
        todo = [{'f%d' % i: kind} for i in range(n)]
    elif how == 'hook':
        todo = [{'h%d' % i: kind} for i in range(h)]
    elif how == 'two':
        todo = [{'f%d' % i: kind, 'f%d' % j: 'raise'} for i in range(n) for j in range(i + 1, n + 1)]
    elif how == 'hooks':
        todo = [{'h%d' % i: kind, 'h%d' % j: kind} for i in range(h) for j in range(i + 1, h + 1)]
    else:
        todo = [{'f%d' % i: kind, 'f%d' % j: kind, 'f%d' % k: kind} for i in range(n) for j in range(i + 1, n + 1) for k in range(j + 1, n + 2)]
    for faults in todo:
        st.state([name, sorted(faults)])
        try:
            app, got, held, order = play(name, faults, retry, st)
            # the calls in the order in which they succeeded, without failures
            order = tuple(i for k, i in enumerate(order) if i not in order[:k])
            if order not in plain:
                plain[order] = play(name, {}, retry, st, order)
            want = plain[order][1]
            expect(app.fired >= 1, 'no failure was injected')
            for i in sorted(want):
                try:
                    Bisim().check(want[i], got[i])
                except Fail as e:
                    raise Fail('result of call %d %s: %s' % (i, (SCRIPTS[name][2] + PROBES[SCRIPTS[name][1]])[i], e))
            for i, r in held:
                if r is not got[i]:
                    r.dump()
        except Fail as e:
            raise Fail('script %s, failures %s, retrying %s\n  %s' % (name, faults, retry, e))
        st.trace()
    st.outcome('%s %s' % (name, how))
