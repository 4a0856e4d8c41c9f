"""C07: pointer relocation across versions follows the route map on whole segments.

Explored: (1) every route map built from up to N rules of a pool (nested, absolute, relative targets, sources that are
string prefixes of each other, names with escaped characters, empty names) against every pointer of up to three tokens;
(2) several versions and documents: stepwise equality, isolation, merging of updates; (3) 2.0 documents of a name-collision
family, migrated: every pointer to a named object of the old document, against the converted document.
"""
import copy
import itertools
from core import Fail, expect, expect_eq, short
from docs import esc, pointer, tokens, walk, MISSING
from env import MemApp
from pyopenapi.migration.store import SpecObjStore

ID, LEVEL = 'C07', 'model_checking'
RULE = ('a state is a (route map, pointer) pair or a (document, pointer) pair; a transition is a relocation or resolution; the '
        'result is compared with a segment-wise reference of the route map, or with the counterpart found by its marker')
BOUNDS = {'quick': 'route maps of <= 2 rules of 22 (all), 3 rules of 12; all pointers of <= 3 tokens over 8 names; documents with every pair of 10 names per kind',
          'thorough': 'route maps of <= 3 rules of 22, 4 rules of 10; documents with every triple of names'}
ASSUMPTIONS = ['a nested route map that has no entry for the remainder leaves the pointer as it is (this is how an identity route of a migrated '
               'fragment is written)', 'the schema of a body or a response belongs to every media type in 3.0: a pointer to it may lead to any of them',
               'pointers into what is no object of its own in 3.0 (the items of a parameter, a form parameter turned into a property) are outside '
               'the property']

URL = 'http://h/a.json'
# rule: path of keys through the nested map, target
RULES = [
    (['#', 'definitions'], 'components/schemas'), (['#', 'definition'], 'wrong'), (['#', 'parameters', ''], '#/components/parameters'),
    (['#', 'parameters', 'b~1c'], '#/components/requestBodies/b~1c'), (['#', 'parameters', 'b'], '#/B'), (['#', 'paths', '~1x', 'parameters/0'], 'rb'),
    (['#', 'paths', '~1x', 'parameters/1'], 'parameters/0'), (['#', 'a'], 'z'), (['#', 'a/b'], 'y'), (['#/a/b'], '#/q'), (['#/a'], '#/p/~0'),
    (['#/ab'], '#/r'), (['#/definitions/a'], {}), (['#', ''], '#/all'), (['#', 'a', 'b'], 'c'), (['#', 'a', 'ab'], 'a'),
    (['#/definitions'], '#/components/schemas'), (['#', 'ab', 'a'], '#/a'), (['#/parameters', '0'], '9'), (['#/parameters', '', '0'], 'w'),
    (['#'], '#/root'), (['#/definitions/a', 'x'], 'y'),
]
NAMES = ['definitions', 'parameters', 'paths', 'a', 'ab', 'b~1c', '0', '~1x', 'b', 'x']


def build(rules):
    """nested route map, or None when the rules contradict each other"""
    out = {}
    for keys, target in rules:
        cur = out
        for k in keys[:-1]:
            cur = cur.setdefault(k, {})
            if not isinstance(cur, dict):
                return None
        k = keys[-1]
        if k in cur:
            return None
        cur[k] = copy.deepcopy(target)
    return out


def relocated(jp, routes):
    """reference: longest whole-segment key at each level, descend through nested maps"""
    rem, prefix, cur = jp.split('/'), [], routes
    while True:
        best = None
        for k in cur:
            segs = k.split('/') if k else []
            if rem[:len(segs)] == segs and (best is None or len(segs) > len(best[0])):
                best = (segs, cur[k])
        if best is None:
            return jp
        segs, target = best
        rem = rem[len(segs):]
        if isinstance(target, dict):
            prefix, cur = prefix + segs, target
            continue
        new = target.split('/') if target.startswith('#') else prefix + target.split('/')
        return '/'.join(new + rem)


def pointers():
    out = []
    for n in range(4):
        for t in itertools.product(NAMES if n < 3 else NAMES[:8], repeat=n):
            out.append('/'.join(['#'] + list(t)))
    # empty names
    for t in itertools.product(['', 'a', 'definitions', 'parameters'], repeat=2):
        if '' in t:
            out.append('/'.join(['#'] + list(t)))
    return out


PTRS = pointers()


def cases(tier):
    deep = tier == 'thorough'
    idx = range(len(RULES))
    for n in range(0, 4 if deep else 3):
        for c in itertools.combinations(idx, n):
            yield ['routes', list(c)]
    if not deep:
        for c in itertools.combinations(range(0, 22, 2), 3):
            yield ['routes', list(c)]
    else:
        for c in itertools.combinations(range(1, 21, 2), 4):
            yield ['routes', list(c)]
    for a, b in itertools.product(idx, repeat=2):
        yield ['steps', a, b]
    for kind in ('definitions', 'parameters', 'responses', 'securityDefinitions', 'paths'):
        for names in itertools.combinations(range(len(DNAMES)), 3 if deep else 2):
            for salt in range(5 if kind == 'parameters' else 1):
                yield ['doc', kind, list(names), salt]
    for ps in itertools.product(range(len(PKINDS)), repeat=4 if deep else 3):
        for n in range(3):
            if deep or sum(ps) % 3 == n:
                yield ['path', list(ps), n]


def run(case, st):
    kind = case[0]
    if kind == 'routes':
        run_routes([RULES[i] for i in case[1]], st)
    elif kind == 'steps':
        run_steps(RULES[case[1]], RULES[case[2]], st)
    elif kind == 'doc':
        run_doc(case[1], [DNAMES[i] for i in case[2]], case[3], st)
    else:
        run_path([PKINDS[i] for i in case[1]], case[2], st)
    st.outcome(kind)


def run_routes(rules, st):
    routes = build(rules)
    if routes is None:
        return
    store = SpecObjStore()
    store.update_routes(URL, '3.0.0', copy.deepcopy(routes))
    split = SpecObjStore()
    for k in sorted(routes, key=len):       # the same map, given in several updates (later ones supersede those for what they enclose)
        split.update_routes(URL, '3.0.0', {k: copy.deepcopy(routes[k])})
    for jp in PTRS:
        want = relocated(jp, routes)
        st.state([[r[0] for r in rules], jp])
        st.trans(2)
        for s in (store, split):
            got = s.relocate(URL, jp, '2.0', '3.0.0')
            expect(got == want, 'routes %s: %s is relocated to %s, expected %s', short(routes), jp, got, want)
    jp = PTRS[-1]
    for args, want in (((URL + 'x', jp, '2.0', '3.0.0'), jp), ((URL, jp, '3.0.0', '3.0.0'), jp), ((URL, jp, '1.2', '2.0'), jp)):
        expect_eq(store.relocate(*args), want, 'relocation outside the routes %r' % (args, ))
    st.trace()


def run_steps(r1, r2, st):
    m1, m2 = build([r1]), build([r2])
    store = SpecObjStore()
    store.update_routes(URL, '3.0.0', copy.deepcopy(m2))
    store.update_routes(URL, '2.0', copy.deepcopy(m1))
    store.update_routes(URL + 'x', '3.0.0', copy.deepcopy(m1))
    for jp in PTRS[:400]:
        one = relocated(jp, m1)
        st.state(['steps', r1[0], r2[0], jp])
        st.trans(4)
        expect_eq(store.relocate(URL, jp, '1.2', '2.0'), one, 'first step for %s' % jp)
        expect_eq(store.relocate(URL, one, '2.0', '3.0.0'), relocated(one, m2), 'second step for %s' % one)
        expect_eq(store.relocate(URL, jp, '1.2', '3.0.0'), relocated(one, m2), 'both steps for %s' % jp)
        expect_eq(store.relocate(URL + 'x', jp, '1.2', '3.0.0'), one, 'other document, %s' % jp)
    st.trace()


# ------------------------------------------------------------------ migrated documents

DNAMES = ['A', 'AB', 'A/B', 'A~B', 'A~1B', '0', 'definitions', 'get', 'a b', '']
PKINDS = ['query', 'body', 'form', 'ref-query', 'ref-form']


def param(kind, tag):
    if kind == 'body':
        return {'name': tag, 'in': 'body', 'description': tag, 'schema': {'title': tag + '.s', 'properties': {'p/q': {'title': tag + '.p'}}}}
    if kind == 'form':
        return {'name': tag, 'in': 'formData', 'type': 'string', 'description': tag}
    if kind == 'file':
        return {'name': tag, 'in': 'formData', 'type': 'file', 'description': tag}
    return {'name': tag, 'in': 'query' if kind == 'query' else 'header', 'type': 'string', 'description': tag}


def want_schema(want, old, new, tag):
    for sub, mark in (([], tag + '.s'), (['properties', 'p/q'], tag + '.p')):
        want[pointer(old + ['schema'] + sub)] = (pointer(new + ['content', '*', 'schema'] + sub), mark)


def doc_for(kind, names, salt):
    d = {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}}
    want = {}       # old pointer -> (new pointer, marker)
    if kind == 'definitions':
        d['definitions'] = {}
        for n in names:
            d['definitions'][n] = {'title': 't:' + n, 'properties': {'p/q': {'title': 'p:' + n}, n or 'e': {'title': 'n:' + n}},
                                   'allOf': [{'title': '0:' + n}, {'title': '1:' + n}]}
            for sub, mark in (([], 't:'), (['properties', 'p/q'], 'p:'), (['properties', n or 'e'], 'n:'), (['allOf', '1'], '1:')):
                want[pointer(['definitions', n] + sub)] = (pointer(['components', 'schemas', n] + sub), mark + n)
    elif kind == 'responses':
        d['responses'] = {}
        for i, n in enumerate(names):
            d['responses'][n] = {'description': 'r:' + n, 'headers': {'h/' + n: {'type': 'string', 'description': 'h:' + n}}}
            if i:
                d['responses'][n]['schema'] = {'title': 's:' + n, 'properties': {'p/q': {'title': 'q:' + n}}}
                new = ['components', 'responses', n, 'content', '*', 'schema']
                want[pointer(['responses', n, 'schema'])] = (pointer(new), 's:' + n)
                want[pointer(['responses', n, 'schema', 'properties', 'p/q'])] = (pointer(new + ['properties', 'p/q']), 'q:' + n)
            want[pointer(['responses', n])] = (pointer(['components', 'responses', n]), 'r:' + n)
            want[pointer(['responses', n, 'headers', 'h/' + n])] = (pointer(['components', 'responses', n, 'headers', 'h/' + n]), 'h:' + n)
    elif kind == 'securityDefinitions':
        d[kind] = {}
        for i, n in enumerate(names):
            d[kind][n] = [{'type': 'basic', 'description': 's:' + n}, {'type': 'apiKey', 'in': 'header', 'name': 'x', 'description': 's:' + n}][i % 2]
            want[pointer([kind, n])] = (pointer(['components', 'securitySchemes', n]), 's:' + n)
    elif kind == 'parameters':
        d[kind] = {}
        kinds = ['query', 'body', 'form', 'file', 'header']
        for i, n in enumerate(names):
            k = kinds[(salt + (2 * i if i else 0)) % 5]
            d[kind][n] = param(k, 'x:' + n)
            want[pointer([kind, n])] = (pointer(['components', 'requestBodies' if k in ('body', 'form', 'file') else 'parameters', n]),
                                        'x:' + n)
            if k == 'body':
                want_schema(want, [kind, n], ['components', 'requestBodies', n], 'x:' + n)
    else:
        for n in names:
            d['paths']['/' + n] = {'get': {'operationId': 'g:' + n, 'responses': {'200': {'description': '200:' + n}, 'default': {'description': 'd:' + n}}},
                                   'put': {'operationId': 'p:' + n, 'responses': {'200': {'description': 'p200:' + n}}}}
            p = ['paths', '/' + n]
            want[pointer(p)] = (pointer(p), 'g:' + n)
            for sub, mark in ((['get'], 'g:'), (['put'], 'p:'), (['get', 'responses', '200'], '200:'), (['get', 'responses', 'default'], 'd:')):
                want[pointer(p + sub)] = (pointer(p + sub), mark + n)
    return d, want


def marked(o, mark, new):
    for m in ('title', 'description', 'operationId', 'name'):
        if getattr(o, m, None) == mark:
            return True
    d = o.dump()
    if mark.startswith('g:'):
        return d.get('get', {}).get('operationId') == mark
    if 'content' in d:      # form parameters: the property of that name
        return all(mark in c['schema'].get('properties', {}) for c in d['content'].values())
    return False


def check_doc(d, want, st):
    for fresh in (True, False):
        root = 'http://h/root.json'
        app = None
        for old, (new, mark) in sorted(want.items()):
            if fresh or app is None:
                app = MemApp({root: d}, root, '3.0.0')
            st.state([d, old])
            st.trans()
            what = 'resolving %s of %s' % (old, short(d, 1500))
            there = app.spec_obj_store.relocate(root, old, '2.0', '3.0.0')
            if (old, new, there) == ('#/parameters/', '#/components/requestBodies/', '#/components/parameters/'):
                st.finding('C07-empty-body-name', what + ': is relocated to ' + there)
                continue
            obj, ref = app.resolve_obj(root + old, '2.0', to_spec_version='3.0.0')
            if '*' in tokens(new) and ref.startswith(root + '#/'):      # any media type
                new = pointer([t if p == '*' else p for p, t in itertools.zip_longest(tokens(new), tokens(ref[len(root):]), fillvalue='?')])
            expect(ref == root + new, '%s: leads to %s, expected %s', what, ref, root + new)
            expect(obj.__swagger_version__ == '3.0.0', '%s: version %s', what, obj.__swagger_version__)
            expect(marked(obj, mark, new), '%s: gives another object: %s', what, short(obj.dump()))
            there = app.root.resolve(tokens(new))
            expect(obj.dump() == there.dump() and obj == there, '%s: is not the object of the migrated document', what)
            expect_eq(app.spec_obj_store.relocate(root, old, '2.0', '3.0.0'), new, 'relocation of %s' % old)
            old_obj, ref = app.resolve_obj(root + old, '2.0')
            expect(ref == root + old and old_obj.__swagger_version__ == '2.0', '%s: the old object is gone', what)
    st.trace()


def run_doc(kind, names, salt, st):
    d, want = doc_for(kind, names, salt)
    check_doc(d, want, st)


def run_path(kinds, n, st):
    """path-level parameters: bodies go to x-pyopenapi_internal_request_body, the others move up"""
    if kinds.count('body') > 1 or 'body' in kinds and ('form' in kinds or 'ref-form' in kinds):
        return
    run_paths((('/a/b', '/a'), ('/~a/~1', '/~a~0~1'), ('/', '/{~}/a b'))[n], kinds, st)


def run_paths(paths, kinds, st):
    d = {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'parameters': {}, 'paths': {}}
    want = {}

    def params_of(place, lst, body):
        out, n = [], 0
        for i, k in enumerate(lst):
            tag = '%s:%d' % ('.'.join(place[1:]), i)
            old, new = place + ['parameters', str(i)], place + body
            if k not in ('body', 'form', 'ref-form'):
                new = place + ['parameters', str(n)]
                n += 1
            if k.startswith('ref-'):
                d['parameters'][tag] = param(k[4:], tag)
                out.append({'$ref': pointer(['parameters', tag])})
                continue
            out.append(param(k, tag))
            want[pointer(old)] = (pointer(new), tag)
            if k == 'body':
                out[-1]['name'] = 'body'    # there is one body: that of an operation is in place of the one of the path
                want_schema(want, old, new, tag)
        return out

    for path, lst in zip(paths, (kinds, kinds[::-1])):
        p = ['paths', path]
        d['paths'][path] = item = {'parameters': params_of(p, lst, ['x-pyopenapi_internal_request_body'])}
        want[pointer(p)] = (pointer(p), 'g:' + path)
        for m, own in (('get', []), ('put', lst), ('post', lst[::-1])):
            mark = m[0] + ':' + path if m != 'post' else 'po:' + path
            item[m] = {'operationId': mark, 'produces': ['text/a', 'a/b'], 'responses': {
                '200': {'description': 'd' + mark, 'schema': {'title': 's' + mark, 'items': {'title': 'i' + mark}}}, 'default': {'description': 'f' + mark}}}
            if own:
                item[m]['parameters'] = params_of(p + [m], own, ['requestBody'])
            for sub, mark in (([], mark), (['responses', '200'], 'd' + mark), (['responses', 'default'], 'f' + mark)):
                want[pointer(p + [m] + sub)] = (pointer(p + [m] + sub), mark)
            sub = p + [m, 'responses', '200']
            for more, c in (([], 's'), (['items'], 'i')):
                want[pointer(sub + ['schema'] + more)] = (pointer(sub + ['content', '*', 'schema'] + more), c + item[m]['operationId'])
    check_doc(d, want, st)
