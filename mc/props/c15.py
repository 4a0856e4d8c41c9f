"""C15: the same document loads the same from any source and syntax.

Explored: a family of documents (full documents of every version, documents with every special text at every kind of position, APIs of
several documents) x every syntax (9 of JSON, 18 of YAML, mappings) x text or bytes; every kind of source (URL over HTTP, URL and path of a file,
path without extension, folder with a conventional name, relative path, hooks, getters) x names of files and folders x syntax;
all layouts of files that refer to each other, with misleading neighbours, and with files missing; bytes that are no
UTF-8, which are refused whatever they come from. What is loaded, and what it is
migrated to, is compared coinductively with what the mapping yields when it is handed over from memory under the same url.
"""
import collections
import copy
import http.server
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import warnings
from urllib.parse import quote, unquote
import yaml
import docs
from bisim import Bisim
from core import Fail, expect, expect_eq, same, short
from env import BaseApp
from props import c03
from props import c17
from pyopenapi.migration.getter import DictGetter, LocalGetter, SimpleGetter, UrlGetter
from pyopenapi.migration.resolve import Resolver
from pyopenapi.utils import normalize_url

ID, LEVEL = 'C15', 'model_checking'
RULE = 'a state is a document set with a syntax, a source and a layout of files; a transition is one load or migration; all combinations up to the bound are enumerated'
BOUNDS = {'quick': '28 syntaxes x text and bytes x (5 full APIs, 3 documents with many kinds of values, 36 special texts at 12 kinds of positions at once in 2 versions, 4 handwritten YAML documents, documents that are lists); 5 APIs x 28 sources x 12 folder names; 10 layouts of two references x 4 spellings x 3 extensions, each also with every file missing; 2 locales; 9 byte strings that are no UTF-8 from 8 sources',
          'thorough': 'special texts also at every kind of position separately, and every fourth of them at every single free text of the full documents; all sources x folder names x syntaxes; all layouts with every pair of extensions'}
ASSUMPTIONS = ['texts are JSON, or YAML whose scalars are quoted where they would not be strings otherwise', 'files are encoded in UTF-8', 'documents in folders named like a file (x.json) that are loaded by the path of that folder do not refer to their neighbours']

R = c17.R
BASE = 'http://h/d/'
warnings.simplefilter('ignore')

# ------------------------------------------------------------------ syntaxes


class Dumper(yaml.SafeDumper):
    pass


class Plain(yaml.SafeDumper):
    def ignore_aliases(self, data):
        return True


def numeric_codes(x, parent=None):
    if isinstance(x, dict):
        return dict((int(k) if parent in ('responses', 'properties', 'definitions', 'schemas', 'scopes', 'example') and k.isdigit() and str(int(k)) == k else k, numeric_codes(v, k)) for k, v in x.items())
    return [numeric_codes(v) for v in x] if isinstance(x, list) else x


def shared(x, seen):
    """equal parts become the same object, so that they are written as anchors"""
    if isinstance(x, dict):
        x = dict((k, shared(v, seen)) for k, v in x.items())
    elif isinstance(x, list):
        x = [shared(v, seen) for v in x]
    else:
        return x
    return seen.setdefault(repr(x), x)


def y(doc, dumper=Plain, **k):
    return yaml.dump(doc, Dumper=dumper, allow_unicode=k.pop('allow_unicode', True), **k)


def crlf(s):
    return s.replace('\n', '\r\n')


JSON = {
    'compact': lambda d: json.dumps(d, separators=(',', ':')),
    'plain': lambda d: json.dumps(d, ensure_ascii=False),
    'indent': lambda d: json.dumps(d, indent=2, sort_keys=True),
    'tabs': lambda d: json.dumps(d, indent='\t'),
    'newline first': lambda d: '\n' + json.dumps(d, indent='\t'),
    'blanks around': lambda d: ' \r\n\t ' + json.dumps(d) + ' \n\n',
    'slashes': lambda d: json.dumps(d).replace('/', '\\/'),
    'mark': lambda d: u'\ufeff' + json.dumps(d, ensure_ascii=False, indent='\t'),
    'crlf': lambda d: crlf(json.dumps(d, indent=1)),
    'blank first, slashes': lambda d: ' ' + json.dumps(d).replace('/', '\\/'),
}
YAML = {
    'block': lambda d: y(d, default_flow_style=False),
    'mixed': lambda d: y(d, default_flow_style=None),
    'flow': lambda d: '# flow\n' + y(d, default_flow_style=True),
    'flow first': lambda d: y(d, default_flow_style=True),
    'double': lambda d: y(d, default_style='"'),
    'single': lambda d: y(d, default_style="'", default_flow_style=False),
    'literal': lambda d: y(d, default_style='|', default_flow_style=False),
    'folded': lambda d: y(d, default_style='>', default_flow_style=False),
    'start': lambda d: y(d, explicit_start=True, explicit_end=True, default_flow_style=False),
    'version': lambda d: y(d, version=(1, 1), default_flow_style=False),
    'narrow': lambda d: y(d, width=20, indent=4, default_flow_style=False),
    'ascii': lambda d: y(d, allow_unicode=False, default_flow_style=False),
    'codes': lambda d: y(numeric_codes(d), default_flow_style=False),
    'anchors': lambda d: y(shared(d, {}), Dumper, default_flow_style=False),
    'anchors, codes': lambda d: y(shared(numeric_codes(d), {}), Dumper, default_flow_style=False),
    'mark': lambda d: u'\ufeff' + y(d, default_flow_style=False),
    'crlf': lambda d: crlf(y(d, default_flow_style=False)),
    'json': lambda d: '# json\n' + json.dumps(d, ensure_ascii=False),
}
MAPS = {'dict': lambda d: copy.deepcopy(d), 'ordered': lambda d: json.loads(json.dumps(d), object_pairs_hook=collections.OrderedDict),
        'codes': lambda d: numeric_codes(d),
        'reversed': lambda d: json.loads(json.dumps(d), object_pairs_hook=lambda p: dict(reversed(p)))}


def strings(x):
    if isinstance(x, dict):
        return dict((str(k) if isinstance(k, int) else k, strings(v)) for k, v in x.items())
    return [strings(v) for v in x] if isinstance(x, list) else x


def texts(doc):
    """(name, text) of every syntax that is able to express the document"""
    for n, f in sorted(JSON.items()):
        t = f(doc)
        assert same(json.loads(t.lstrip(u'\ufeff')), doc), n
        yield 'JSON ' + n, t
    for n, f in sorted(YAML.items()):
        if n == 'json' and '"$ref": "/' in json.dumps(doc):
            continue
        try:
            t = f(doc)
            ok = same(strings(yaml.safe_load(t)), doc)
        except (yaml.YAMLError, ValueError):
            ok = False
        if ok:
            yield 'YAML ' + n, t


# ------------------------------------------------------------------ applications

class Quoted(dict):
    """documents by url, no matter how the url is quoted"""

    def __init__(self, ds):
        super(Quoted, self).__init__((unquote(k), v) for k, v in ds.items())

    def fetch(self, url):
        if unquote(url) not in self:
            raise IOError(url)
        d = self[unquote(url)]
        return copy.deepcopy(d) if isinstance(d, dict) else d


class Results(list):
    app = None      # references do not own what they carry


class From(BaseApp):
    """root is what the user names, docs (if any) are handed over from memory"""

    def __init__(self, root, ds=None, hook=None, getter=None, **k):
        if ds is not None:
            quoted = Quoted(ds)
            # files would be read if the url was still that of a file
            hook = lambda url: 'mem:' + url
            getter = type('G', (SimpleGetter, ), {'__simple_getter_callback__': lambda url: quoted.fetch(url[4:])})
        # an application keeps the url of its root normalized
        super(From, self).__init__(normalize_url(root), resolver=Resolver(url_load_hook=hook, default_getter=getter), **k)
        self.given = normalize_url(root)

    def everything(self, getter=None, migrate=True):
        """the root, and what it is migrated to"""
        raw = self.load_obj(self.given, getter=getter)
        out = Results([('loaded', raw)])
        out.app = self
        if hasattr(raw, 'cached_apis'):
            out += [('resource ' + k, v) for k, v in sorted(raw.cached_apis.items())]
        for to in ('2.0', '3.0.0') if migrate else ():
            if getattr(raw, '__swagger_version__') <= to:
                out.append((to, self.migrate_obj(raw, self.given, to)))
        return out


def compare(st, want, got, what):
    if len(want) != len(got):
        raise Fail('%s: %s instead of %s' % (what, [k for k, _ in got], [k for k, _ in want]))
    for (k, a), (l, b) in zip(want, got):
        st.trans()
        try:
            expect_eq(l, k, 'versions')
            Bisim().check(a, b)
        except Fail as e:
            raise Fail('%s: what is %s differs: %s' % (what, k, e))


def attempt(what, fn, *a, **k):
    try:
        return fn(*a, **k)
    except Exception as e:
        raise Fail('%s: %s(%s)' % (what, type(e).__name__, e))


# ------------------------------------------------------------------ documents

SPECIAL = ['yes', 'No', 'on', 'null', '~', 'true', '1', '1.0', '1e3', '0x1F', '010', '12:30:45', '2015-01-01', '2001-12-14T21:59:43Z', '-', '- a', '?', ': ', 'a: b', 'a #b', '# c', '&a', '*a', '!t', '%x', '@x', '`x`', '"q"', "'s'",
           '{x}', '[x', 'a\nb\n\nc\n', ' lead', 'trail ', u'\u00e9\u4e2d\U0001f600', 'tab\tx', '\\n', '=', '<<', 'a\u2028b']


def special(s, version, at=None):
    def f(i, default):
        return s if at is None or at == i else default
    schema = {'type': 'object', 'title': f(0, 't'), 'properties': {f(1, 'p') or 'p': {'type': 'string', 'enum': [f(2, 'e'), 'x'], 'default': f(3, 'd'), 'pattern': f(4, 'p')}},
              'example': {f(5, 'k'): [f(5, 'v'), {'n': f(5, 'w')}]}, 'required': [f(1, 'p')]}
    op = {'operationId': f(6, 'o'), 'tags': [f(7, 't')], 'description': f(8, 'D'), 'responses': {'200': {'description': f(9, 'r')}, 'default': {'description': 'x'}}}
    info = {'title': f(10, 'T'), 'version': f(11, '1')}
    name = f(1, 'N')
    if version == '2.0':
        return {'swagger': '2.0', 'info': info, 'paths': {'/' + f(7, 'p'): {'get': op}}, 'definitions': {name: schema}}
    return {'openapi': '3.0.0', 'info': info, 'paths': {'/' + f(7, 'p'): {'get': op}}, 'components': {'schemas': {'N': schema}}}


def values():
    """numbers, booleans, nested and empty values, keys that look like numbers"""
    val = [0, 1, -1, 10 ** 20, 0.5, -0.25, 1e300, 1e-7, True, False, '', 'x', [], {}, [[], {}], {'a': {'b': []}, 'c': [1, [2, [3]]]}]
    for v in ('2.0', '3.0.0'):
        props = dict(('v%02d' % i, {'type': 'object', 'default': x, 'example': {'e': x, '200': x}}) for i, x in enumerate(val))
        s = {'properties': props, 'maximum': 1e300, 'minimum': 0.1, 'maxLength': 10 ** 6, 'uniqueItems': True, 'exclusiveMaximum': False}
        codes = dict((c, {'description': c}) for c in ('100', '200', '201', '404', '599', 'default'))
        d = {'info': {'title': 't', 'version': '1'}, 'paths': {'/200': {'get': {'responses': codes, 'deprecated': True}, 'put': {'responses': {'204': {'description': 'x'}}}}}}
        yield dict(d, swagger='2.0', definitions={'200': s, '0': {'type': 'string', 'properties': {'1': {'example': {'7': 1, '42': 2}}, '12': {'type': 'string'}}}}) if v == '2.0' else dict(d, openapi='3.0.0', components={'schemas': {'200': s, '3': {'properties': {'1': {'example': {'7': 1}}}}}, 'responses': {'404': {'description': 'x'}}})
    d = docs.doc2()
    yield d


HAND = [("""
# written by hand
swagger: '2.0'
info: {title: t, version: '1'}
paths:
  /a:
    get: &get
      summary: >-
        folded
        text
      description: |
        kept
          text
      responses:
        200: {description: ok}
        404:
          description: "not
            found"
    put: *get
    post:
      <<: *get
      deprecated: true
definitions: {}
""", {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'definitions': {}, 'paths': {'/a': dict(
    [(m, {'summary': 'folded text', 'description': 'kept\n  text\n', 'responses': {'200': {'description': 'ok'}, '404': {'description': 'not found'}}}) for m in ('get', 'put')],
    post={'summary': 'folded text', 'description': 'kept\n  text\n', 'deprecated': True, 'responses': {'200': {'description': 'ok'}, '404': {'description': 'not found'}}})}}),
    ("""%YAML 1.1
---
openapi: 3.0.0
info:
    title: t
    version: "1"
paths:
    ? /a
    : get:
        parameters: &p
        - {name: q, in: query, schema: {type: string, enum: [a, 'b', "c"]}}
        responses: {200: {description: x}, '201': {description: y}, default: {description: z}}
    /b:
        parameters: *p
components: {schemas: {S: {type: integer, maximum: 10, example: {'1': 2}}}}
...
""", {'openapi': '3.0.0', 'info': {'title': 't', 'version': '1'}, 'paths': {
        '/a': {'get': {'parameters': [{'name': 'q', 'in': 'query', 'schema': {'type': 'string', 'enum': ['a', 'b', 'c']}}], 'responses': {'200': {'description': 'x'}, '201': {'description': 'y'}, 'default': {'description': 'z'}}}},
        '/b': {'parameters': [{'name': 'q', 'in': 'query', 'schema': {'type': 'string', 'enum': ['a', 'b', 'c']}}]}}, 'components': {'schemas': {'S': {'type': 'integer', 'maximum': 10, 'example': {'1': 2}}}}}),
    ("""
{swagger: '2.0', info: {title: t, version: '1'}, paths: {/a: {get: {responses: {200: {description: d}}}}}}
""", {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {'/a': {'get': {'responses': {'200': {'description': 'd'}}}}}}),
    ("""swagger: '2.0'
info: &i {title: t, version: '1'}
paths:
  /a:
    get:
      responses:
        200: &r
          description: d
          schema: {$ref: '#/definitions/A'}
        201: *r
        default: *r
definitions:
  A: &a
    properties: {x: {type: string}}
  B: *a
  C:
    allOf: [*a, *a]
""", {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {'/a': {'get': {'responses': dict((c, {'description': 'd', 'schema': {'$ref': '#/definitions/A'}}) for c in ('200', '201', 'default'))}}},
      'definitions': dict([(k, {'properties': {'x': {'type': 'string'}}}) for k in 'AB'], C={'allOf': [{'properties': {'x': {'type': 'string'}}}] * 2})})]


def one():
    lst, apis = c03.listing()
    return dict([(R, lst)] + [(BASE + k, v) for k, v in apis.items()])


def one_plain():
    return c17.one()


APIS = {'doc2': lambda: {R: docs.doc2()}, 'doc3': lambda: {R: docs.doc3()}, 'two': c17.two, 'three': c17.three, 'one': one_plain}


# ------------------------------------------------------------------ cases

FOLDERS = ['d', 'with blank', 'per%cent', '%20', u'\u00e9\u4e2d', 'a+b', 'a;b', '~t', 'v1.2', 'x.json', 'x.yaml', 'q=1&r']
SOURCES = ['file', 'file url', 'relative', 'dotted', 'folder', 'folder/', 'folder relative', 'bare', 'bare yaml', 'bare yml', 'http', 'hook file', 'hook http', 'local getter', 'url getter', 'dict getter',
           'folder yaml', 'folder yml', 'folder url', 'random json', 'random yaml', 'random yml', 'crowded', 'yaml in http', 'http/', 'http?', 'own getter', 'both']


def cases(tier):
    deep = tier == 'thorough'
    for a in sorted(APIS) + ['one12']:
        for k in range(4):
            yield ['api', a, k]
    for i in range(3):
        yield ['values', i]
    for i in range(len(HAND)):
        yield ['hand', i]
    for i in range(len(SPECIAL)):
        for v in ('2.0', '3.0.0'):
            yield ['special', i, v, None]
            if deep:
                for at in range(12):
                    yield ['special', i, v, at]
    if deep:
        for v, d in (('2.0', docs.doc2()), ('3.0.0', docs.doc3())):
            todo = [t for t, x in docs.nodes(d) if isinstance(x, str) and t[-1] in FREE]
            for k in range(len(todo)):
                for i in range(k % 4, len(SPECIAL), 4):
                    yield ['leaf', v, k, i]
    for a in sorted(APIS):
        for s in SOURCES:
            for f in range(len(FOLDERS)):
                if deep or f < 1 or (f + SOURCES.index(s)) % 4 == len(a) % 4:
                    yield ['source', a, s, f]
    for k in range(len(LAYOUTS)):
        for style in range(4):
            for ext in itertools.product(range(3), repeat=3) if deep else [(0, 1, 2), (1, 2, 0), (0, 0, 0)]:
                yield ['layout', k, style, list(ext)]
    for l in LOCALES:
        yield ['locale', l]
    for v in ('2.0', '3.0.0'):
        for i in range(v > '2', len(SPECIAL), 1 if deep else 4):
            yield ['listed', v, i]
    for i, _ in enumerate(no_texts()):
        yield ['bytes', i]


FREE = 'description summary title name operationId pattern default'.split()


def run(case, st):
    kind = case[0]
    if kind == 'api':
        ds = one() if case[1] == 'one12' else APIS[case[1]]()
        check_texts(ds, R, st, case, part=case[2])
    elif kind == 'values':
        check_texts({R: list(values())[case[1]]}, R, st, case)
    elif kind == 'hand':
        text, doc = HAND[case[1]]
        check_one({R: doc}, {R: text}, R, st, 'handwritten YAML')
        check_texts({R: doc}, R, st, case)
    elif kind == 'special':
        check_texts({R: special(SPECIAL[case[1]], case[2], case[3])}, R, st, case, few=True)
    elif kind == 'leaf':
        d = docs.doc2() if case[1] == '2.0' else docs.doc3()
        t = [t for t, x in docs.nodes(d) if isinstance(x, str) and t[-1] in FREE][case[2]]
        for s in SPECIAL[case[3]:case[3] + 1]:
            check_texts({R: docs.edited(d, t, lambda v: s)}, R, st, case, few=True)
    elif kind == 'source':
        check_source(case[1], case[2], FOLDERS[case[3]], st)
    elif kind == 'layout':
        check_layout(LAYOUTS[case[1]], case[2], case[3], st)
    elif kind == 'listed':
        check_listed(case[1], SPECIAL[case[2]], st)
    elif kind == 'locale':
        check_locale(case[1], st)
    else:
        check_bytes(case[1], st)
    st.outcome(case[:1] + [case[1] if kind in ('api', 'locale') else case[2] if kind == 'source' else ''])


# ------------------------------------------------------------------ syntax

def check_one(ds, other, root, st, what, want=None, migrate=True):
    try:
        want = want or attempt('as mapping', From(root, ds).everything)
        app = From(root, other)
        got = attempt(what, app.everything, migrate=migrate)
        compare(st, want, got, what)
    except Fail as e:
        raise Fail('%s\n%s\n%s' % (e, short(ds, 1500), short(other, 1500)))
    st.trace()
    return want


def check_texts(ds, root, st, label, few=False, part=None):
    reference = From(root, ds)
    want = attempt('as mapping', reference.everything, migrate=not few)
    loaded = From(root, ds).everything(migrate=False)
    per = dict((u, dict(texts(d))) for u, d in ds.items())
    names = sorted(set.intersection(*[set(p) for p in per.values()]))
    assert len(names) > 18, names
    for n in names if part is None else names[part::4]:
        for enc in ('text', 'bytes'):
            if few and (enc == 'text') == (len(n) % 2 == 0):
                continue
            st.state([label, n, enc])
            other = dict((u, per[u][n] if enc == 'text' else per[u][n].encode('utf-8')) for u in ds)
            check_one(ds, other, root, st, '%s as %s' % (n, enc), want if not few and enc == 'text' else loaded, not few and enc == 'text')
    if few or part:
        return
    for n, f in sorted(MAPS.items()):
        st.state([label, n])
        check_one(ds, dict((u, f(d)) for u, d in ds.items()), root, st, 'mapping ' + n, want)
    # each document in another syntax
    if len(ds) > 1:
        for k in range(len(names)):
            other = dict((u, per[u][names[(k + i) % len(names)]]) for i, u in enumerate(sorted(ds)))
            st.state([label, 'mixed', k])
            check_one(ds, other, root, st, 'mixed %d' % k, want)


def check_listed(version, s, st):
    """a document that is a list: its parts are those of a mapping with the numbers as names"""
    place = 'definitions' if version == '2.0' else 'schemas'
    parts = [{'type': 'string', 'default': s, 'enum': [s, 'x']}, {'type': 'array', 'items': {'$ref': '#/0'}}, {'properties': {'p': {'title': s, 'allOf': [{'$ref': '#/1'}, {'$ref': 'root.json#/%s/A' % place if version == '2.0' else 'root.json#/components/schemas/A'}]}}}]
    named = dict(('D%d' % i, {'$ref': 'b.json#/%d' % i}) for i in range(3))
    named.update({'A': {'type': 'integer'}, 'E': {'$ref': 'b.json#/2/properties/p/allOf/0'}})
    info = {'title': 't', 'version': '1'}
    root = {'swagger': '2.0', 'info': info, 'paths': {}, 'definitions': named} if version == '2.0' else {'openapi': '3.0.0', 'info': info, 'paths': {}, 'components': {'schemas': named}}
    want = None
    for n, t in texts(parts):
        for enc in (None, 'utf-8'):
            st.state(['listed', version, s, n, enc])
            other = {R: root, BASE + 'b.json': t.encode(enc) if enc else t}
            want = check_one({R: root, BASE + 'b.json': dict((str(i), x) for i, x in enumerate(parts))}, other, R, st, 'a list, %s as %s' % (n, enc or 'text'), want)


# ------------------------------------------------------------------ sources

class Scratch(object):
    def __enter__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='c15-'))
        self.cwd = os.getcwd()
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.dir)

    def write(self, path, text):
        p = os.path.join(self.dir, path)
        if not os.path.isdir(os.path.dirname(p)):
            os.makedirs(os.path.dirname(p))
        with open(p, 'wb') as f:
            f.write(text if isinstance(text, bytes) else text.encode('utf-8'))
        return p


def url_of(path):
    return 'file://' + quote(path)


class Server(object):
    def __init__(self, content, at=None, data=None):
        content = dict(content, **{at: data} if at else {})

        class Handler(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                data = content.get(unquote(self.path))
                self.send_response(404 if data is None else 200)
                self.end_headers()
                self.wfile.write(b'{"swagger": "2.0"}' if data is None else data)

            def log_message(self, *a):
                pass
        self.httpd = http.server.ThreadingHTTPServer(('127.0.0.1', 0), Handler)
        self.httpd.daemon_threads = True

    def __enter__(self):
        threading.Thread(target=self.httpd.serve_forever, kwargs={'poll_interval': 0.02}, daemon=True).start()
        return 'http://127.0.0.1:%d' % self.httpd.server_address[1]

    def __exit__(self, *a):
        self.httpd.shutdown()
        self.httpd.server_close()


DECOY = {'swagger': '2.0', 'info': {'title': 'DECOY', 'version': '0'}, 'paths': {'/decoy': {'get': {'responses': {'200': {'description': 'decoy'}}}}}, 'definitions': {'A': {'title': 'decoy'}, 'Z': {'title': 'decoy'}}}


def rename(ds, names):
    """documents with references to each other under other names"""
    def fix(x, parent=None):
        if isinstance(x, dict):
            return dict((k, fix(v, k)) for k, v in x.items())
        if isinstance(x, list):
            return [fix(v) for v in x]
        if parent == '$ref' and x.partition('#')[0] in names:
            return names[x.partition('#')[0]] + '#' + x.partition('#')[2]
        return x
    return dict((BASE + names.get(u[len(BASE):], u[len(BASE):]), fix(d)) for u, d in ds.items())


def check_source(api, source, folder, st):
    os.environ['no_proxy'] = '*'
    st.state(['source', api, source, folder])
    ext = 'yml' if source.endswith('yml') else 'yaml' if 'yaml' in source else 'json'
    write = JSON['mark'] if source == 'crowded' else JSON['indent'] if ext == 'json' else YAML['codes']
    name = {'fold': 'swagger.' + ext, 'bare': 'api.' + ext, 'rand': 'my doc.' + ext}.get(source[:4], 'root.' + ext)
    listing = api == 'one'
    if listing and (source.startswith('folder') or source == 'crowded'):
        name = 'resource_list.json'
        write = JSON['indent'] if ext == 'json' else YAML['codes']
    ds = rename(APIS[api](), {'root.json': name})
    files = {}
    for u, d in ds.items():
        n = u[len(BASE):]
        files[n + ('' if '.' in n else '.' + ext)] = write(d).encode('utf-8')
    nested = folder if not folder.endswith(('.json', '.yaml')) or not source.startswith('folder') else 'w/' + folder
    with Scratch() as s:
        for n, t in files.items():
            s.write(nested + '/' + n, t)
        path = os.path.join(s.dir, nested, name)
        home = os.path.dirname(path)
        # neighbours that must not be taken instead
        for n in ('swagger.json', 'root.json', 'b.json', 'pet.json', 'resource_list.json') if source == 'crowded' else ():
            s.write(n, JSON['compact'](DECOY))
            s.write(nested + '/sub/' + n, JSON['compact'](DECOY))
        if source == 'crowded':
            for n in ('root.json.json', 'root.yaml', 'root.json.yaml', 'b.yaml', 'b.json.yml', 'zswagger.json'):
                s.write(nested + '/' + n, JSON['compact'](DECOY))
        # folders named like a document are none
        for n in {'folder': ['resource_list.json', 'swagger.json', 'swagger.yaml', 'swagger.yml'], 'bare': ['api.json', 'api.yaml', 'api.yml']}.get(source.split('/')[0].split(' ')[0], ()) if source not in ('folder', 'bare') else ():
            if not os.path.exists(os.path.join(home, n)):
                s.write(nested + '/' + n + '/' + name, JSON['compact'](DECOY))
        root, hook, getter, late, server = path, None, None, None, None
        expected = url_of(path)
        if source in ('file url', 'random yml'):
            root = url_of(path)
        elif source == 'relative':
            os.chdir(s.dir)
            root = os.path.join(nested, name)
        elif source == 'dotted':
            os.chdir(home)
            root = './../%s/./%s' % (os.path.basename(home), name)
        elif source.startswith('folder'):
            root = home + '/' if source == 'folder/' else home
            expected = url_of(home) + '/'
            if source == 'folder relative':
                os.chdir(os.path.dirname(home))
                root = os.path.basename(home)
            elif source == 'folder url':
                root = url_of(home) + '/'
            if folder.endswith(('.json', '.yaml')) and len(ds) > 1:
                return      # see ASSUMPTIONS
        elif source.startswith('bare'):
            if listing:
                return      # resources are looked for below a listing without extension
            root = os.path.join(home, 'api')
            expected = url_of(root)
        elif source in ('http', 'yaml in http', 'http/', 'http?'):
            if listing and source == 'http?':
                return      # resources are looked for with the query of the listing
            server = Server(dict(('/' + folder + '/' + n, t) for n, t in files.items()) if not listing else
                            dict(('/' + folder + '/' + (n if n == name else n.rpartition('.')[0]), t) for n, t in files.items()),
                            {'http/': '/' + folder + '/', 'http?': '/' + folder + '/' + name + '?v=1&w=2'}.get(source), files[name])
        elif source == 'hook file':
            root = expected = BASE + name
            hook = lambda url: url_of(os.path.join(home, url[len(BASE):]))
        elif source == 'hook http':
            root = expected = BASE + name
            server = Server(dict(('/' + folder + '/' + (n.rpartition('.')[0] if listing and n != name else n), t) for n, t in files.items()))
        elif source == 'local getter':
            late = LocalGetter
        elif source == 'url getter':
            late = UrlGetter
            if len(ds) > 1:
                getter, late = None, (UrlGetter if not listing else None)
        elif source == 'own getter':
            # the getter of the call knows the document and the resources of a listing, that of the application everything else
            root = expected = BASE + name
            mine, others = (Quoted(ds), Quoted({})) if listing else (Quoted({root: ds[root]}), Quoted(ds if len(ds) > 1 else {}))
            if not listing and len(ds) > 1:
                others[unquote(root)] = DECOY
            elif listing:
                others.update((unquote(u), dict(DECOY, swaggerVersion='1.2', apis=[])) for u in ds)
            getter, late = [type('G', (SimpleGetter, ), {'__simple_getter_callback__': lambda url, q=q: q.fetch(url)}) for q in (others, mine)]
        elif source == 'both':
            # the one looked for first
            if listing:
                return
            root, expected = home, url_of(home) + '/'
            s.write(nested + '/swagger.json', files[name])
            for n in ('swagger.yaml', 'swagger.yml'):
                s.write(nested + '/' + n, JSON['compact'](DECOY))
            if folder.endswith(('.json', '.yaml')):
                return      # see ASSUMPTIONS
        elif source == 'dict getter':
            if len(ds) > 1 and not listing:
                return      # documents have to be listed in the order of their use
            urls = sorted(ds, key=lambda u: (u != BASE + name, ['pet', 'user', 'store'].index(u[len(BASE):]) if listing and u != BASE + name else 0))
            late = DictGetter(urls, dict((u, copy.deepcopy(d)) for u, d in ds.items()))
        def go(at=None):
            r, e, h = root, expected, hook
            if source in ('http', 'yaml in http', 'http/', 'http?'):
                r = e = '%s/%s/%s' % (at, quote(folder), {'http/': '', 'http?': name + '?v=1&w=2'}.get(source, name))
            elif source == 'hook http':
                h = lambda url: '%s/%s/%s' % (at, quote(folder), url[len(BASE):])
            b = e[:e.rindex('/') + 1]
            mem = dict((b + u[len(BASE):], d) for u, d in ds.items())
            if source.startswith('folder') or source.startswith('bare') or source in ('http/', 'http?', 'both'):
                mem[e] = mem[b + name]
            want = attempt('from memory', From(e, mem).everything)
            app = From(r, None, h, getter)
            got = attempt('%s of %s (%s)' % (source, api, r), app.everything, late)
            compare(st, want, got, '%s of %s (%s)' % (source, api, r))
        if server:
            with server as at:
                go(at)
        else:
            go()
    st.trace()


# ------------------------------------------------------------------ references between files

# (root, second, third, whether the root is loaded by the path of its folder)
LAYOUTS = [('a/swagger', 'a/b', 'a/c', False), ('a/swagger', 'a/b', 'a/c', True), ('a/r', 'a/s/b', 'a/s/t/c', False), ('a/s/r', 'a/b', 'c', False), ('a/r', 'x/b', 'a/c', False), ('a b/swagger', 'a b/b c', 'd e/c', True),
           ('v1.0/r', 'v2.0/b', 'v1.0/c', False), ('x.json/r', 'x.json/b', 'x.yaml/c', False), (u'\u00e9/swagger', u'\u00e9/\u4e2d', u'\u00fc/c', True), ('a/r', 'a/r.b', 'a/r.b.c', False)]
EXTS = ['.json', '.yaml', '.yml']
ALL = ['a/', 'a/s/', 'a/s/t/', 'x/', '', 'd e/', 'a b/', 'v1.0/', 'v2.0/']


def check_layout(layout, style, exts, st):
    names = [n + EXTS[e] for n, e in zip(layout[:3], exts)]
    st.state(['layout', names, style])
    with Scratch() as s:
        paths = [os.path.join(s.dir, n) for n in names]

        def ref(i, j, frag):
            rel = os.path.relpath(paths[j], os.path.dirname(paths[i]))
            t = {0: rel, 1: quote(rel), 2: './' + rel if not rel.startswith('.') else rel, 3: url_of(paths[j])}[style]
            return t + '#' + frag
        content = [
            {'swagger': '2.0', 'info': {'title': 'root', 'version': '1'}, 'paths': {'/a': {'get': {'responses': {'200': {'description': 'd', 'schema': {'$ref': ref(0, 1, '/definitions/A')}}}}}},
             'definitions': {'L': {'title': 'local', 'properties': {'b': {'$ref': ref(0, 1, '/definitions/A')}, 'c': {'$ref': ref(0, 2, '/definitions/C')}}}}},
            {'definitions': {'A': {'title': 'second', 'properties': {'c': {'$ref': ref(1, 2, '/definitions/C')}, 'o': {'$ref': '#/definitions/O'}}}, 'O': {'title': 'own', 'type': 'string'}}},
            {'definitions': {'C': {'title': 'third', 'properties': {'o': {'$ref': ref(2, 1, '/definitions/O')}}}}}]
        syntax = [JSON['compact'] if n.endswith('json') else YAML['codes'] for n in names]
        # files with the same names elsewhere, and with other extensions here
        decoy = JSON['compact'](dict(DECOY, definitions=dict((k, {'title': 'decoy'}) for k in 'ACOL')))
        for d in ALL:
            for n in names:
                for e in EXTS if len(names[0]) > 4 else ['']:
                    p = os.path.join(s.dir, d, os.path.splitext(os.path.basename(n))[0] + e)
                    if p not in paths and not os.path.exists(p) and not (layout[3] and d == os.path.dirname(names[0]) + '/' and 'swagger' in p):
                        s.write(os.path.relpath(p, s.dir), decoy)
                s.write(os.path.join(d, os.path.basename(n) + '.json'), decoy)
        for p, c, f in zip(paths, content, syntax):
            s.write(os.path.relpath(p, s.dir), f(c))
        root = os.path.dirname(paths[0]) if layout[3] else paths[0]
        e = url_of(root) + '/' if layout[3] else url_of(root)
        mem = dict((url_of(p), c) for p, c in zip(paths, content))
        mem[e] = content[0]
        what = 'references by %s between %s' % (['plain paths', 'quoted paths', 'dotted paths', 'urls'][style], names)
        want = attempt('from memory', From(e, mem).everything)
        app = From(root)
        got = attempt(what, app.everything)
        compare(st, want, got, what)
        for o in dict(got)['2.0'], dict(got)['3.0.0']:
            defs = o.definitions if hasattr(o, 'definitions') else o.components.schemas
            at = lambda o: o.get_attrs('migration').ref_obj
            b = at(defs['L'].properties['b'])
            c = at(defs['L'].properties['c'])
            expect_eq([b.title, c.title, at(b.properties['o']).title, at(b.properties['c']).title, at(c.properties['o']).title], ['second', 'third', 'own', 'third', 'own'], what)
        # every file missing in turn: an error, never another file
        for i, p in enumerate(paths):
            os.rename(p, p + '.gone')
            st.trans()
            try:
                r = From(root).everything()
            except Exception:
                r = None
            os.rename(p + '.gone', p)
            if r is not None:
                raise Fail('%s: %s is missing, but this is loaded: %s' % (what, names[i], short(r[-1][1].dump())))
    st.trace()


# ------------------------------------------------------------------ bytes that are no text

def no_texts():
    t = JSON['plain'](special(u'\u00e9\u4e2d', '2.0')).encode('utf-8')
    at = t.index(u'\u4e2d'.encode('utf-8'))
    yield 'latin-1', JSON['plain'](special(u'\u00e9', '2.0')).encode('latin-1')
    yield 'first byte alone', t[:at + 1] + t[at + 3:]
    yield 'last byte missing', t[:at + 2] + t[at + 3:]
    yield 'first byte missing', t[:at] + t[at + 1:]
    yield 'surrogates', t[:at] + b'\xed\xa0\x80' + t[at:]
    yield 'overlong', t[:at] + b'\xc0\xaf' + t[at:]
    yield 'stray byte in front', b'\xff' + t
    yield 'stray byte behind', t + b'\x80'
    yield 'yaml', YAML['block'](special(u'\u00e9', '2.0')).encode('latin-1')


def check_bytes(i, st):
    name, data = list(no_texts())[i]
    os.environ['no_proxy'] = '*'
    with Scratch() as s, Server({'/root.json': data, '/other.json': data}) as at:
        files = [url_of(s.write('d/root' + e, data)) for e in EXTS] + [s.write('e/swagger.json', data), os.path.dirname(s.write('f/swagger.json', data)), at + '/root.json']
        doc = {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}, 'definitions': {'S': {'$ref': 'd/root.json#/definitions/N'}}}
        todo = [('loading ' + f.replace(s.dir, ''), f, None) for f in files]
        todo += [('loading bytes handed over', R, {R: data}), ('migrating what refers to it', s.write('main.json', JSON['plain'](doc)), None)]
        for what, root, mem in todo:
            st.trans()
            st.state([i, what])
            try:
                got = From(root, mem).everything()[0][1].dump()
            except Exception:
                continue
            raise Fail('%s (bytes that are no UTF-8: %s) gives %s' % (what, name, short(got)))
    st.trace()


# ------------------------------------------------------------------ locales

LOCALES = ['C', 'POSIX utf-8 off']


def check_locale(l, st):
    """texts are read the same in every locale"""
    ds = special(u'\u00e9\u4e2d\U0001f600', '2.0')
    with Scratch() as s:
        files = [s.write('d/root.json', JSON['plain'](ds)), s.write('d/other.yaml', YAML['block'](ds)), s.write(u'\u00e9.json', JSON['plain'](ds))]
        code = 'import sys, json; sys.path[:0] = %r\nfrom props import c15\nfor f in %r: print(json.dumps(c15.From(f).everything()[0][1].dump(), sort_keys=True))' % (
            [x for x in sys.path if x] + [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))], [url_of(f) for f in (files[:2])])
        env = dict((k, v) for k, v in os.environ.items() if not k.startswith('LC_') and k != 'LANG')
        env.update(LC_ALL='C' if l == 'C' else 'POSIX', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', PYTHONWARNINGS='ignore')
        p = subprocess.run([sys.executable, '-c', code], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        lines = p.stdout.decode('ascii', 'replace').splitlines()
        expect_eq(len(lines), 2, 'locale %s: %s' % (l, p.stderr.decode('utf-8', 'replace')[-400:]))
        want = From(R, {R: ds}).everything()[0][1].dump()
        for x in lines:
            st.trans()
            expect(same(json.loads(x), want), 'locale %s: %s instead of %s', l, x, short(want))
    st.state(['locale', l])
    st.trace()
