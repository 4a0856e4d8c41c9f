"""C02: references resolve against their document URL as RFC 3986 requires.

Explored: a state is a (document URL, reference) pair; the reference grows one path segment per
transition.  Reference model: an independent RFC 3986 section 5.2 resolver working on segment lists.
"""
import itertools
from core import Fail, expect, expect_eq
from pyopenapi.utils import (normalize_jr, jr_split, derelativise_url, url_dirname, url_join, normalize_url)
from pyopenapi.migration.base import ApiBase
from env import MemApp

ID, LEVEL = 'C02', 'model_checking'
RULE = ('a state is a (document URL, reference, fragment) combination; a transition adds one path segment '
        'to the reference; all segment sequences over {.,..,names,document names} up to the bound')
BOUNDS = {'quick': '15 document URLs x all relative and absolute-path references of <=3 segments x 8 fragments; '
                   'references to folders and with empty segments; 6 queries of the document x 6 of the reference, of <=2 segments; every relative reference of <=3 segments also followed by a real load of two documents',
          'thorough': 'the same with <=5 segments (<=4 for real loads, <=3 with queries)'}
ASSUMPTIONS = ['queries are not empty; references name a document '
               '(their last segment is neither "." nor ".."); the first segment is not empty',
               'segments of three or more dots are excluded: the repository pins them as parent folders']

# (scheme, host, folder segments, document)
BASES = [('http', 'h', [], 'root.json'), ('http', 'h', ['a'], 'root.json'), ('http', 'h', ['a', 'b'], 'root.yaml'),
         ('https', 'h:8080', ['a', 'b', 'c'], 'x.yml'), ('file', '', ['tmp'], 'swagger.json'),
         ('file', '', ['tmp', 'v1.0'], 'swagger.yaml'), ('file', '', [], 'a.json'), ('http', 'h', [], ''),
         ('http', 'h', ['a'], ''), ('http', 'u@h', ['v2', 'json'], 'api-docs'), ('http', 'h', ['~x'], 'd'),
         ('https', 'h.example.com', ['a b'], 'r.json'), ('http', 'h', ['a.json'], 'r.json'), ('http', 'h', ['%7Ea'], 'r.json'),
         ('http', 'h', ['a', '', 'b'], 'r.json')]
MID = ['.', '..', 'a', '..b', 'v1.0']
LAST = ['o.json', 'o.yaml', 'user', 'a.b.json', '.hidden.json', '..x.json']
QUERIES = ['', '?t=1', '?p=a/../b.json', '?a?b', ';v', ';v?t=1']
FRAGS = [None, '', '/', '/definitions/User', '/paths/~1a~1{id}/get', '/x~0y', '/a b/%7E', '/a#b']


def url_of(b):
    return '%s://%s%s' % (b[0], b[1], ''.join('/' + s for s in b[2] + [b[3]]))


def merge(folder, ref):
    out = list(folder)
    for s in ref:
        if s == '..':
            if out:
                out.pop()
        elif s != '.':
            out.append(s)
    return out


def refs(n):
    for k in range(n):
        for mid in itertools.product(MID, repeat=k):
            for last in LAST if k < 2 else LAST[:2]:
                yield list(mid) + [last]


def cases(tier):
    n = 5 if tier == 'thorough' else 3
    for bi in range(len(BASES)):
        for r in refs(n):
            yield ['ref', bi, r]
        yield ['base', bi]
    for i in range(len(BASES)):
        yield ['dir', i]
        yield ['folder', i]
        for q in range(len(QUERIES)):
            yield ['query', i, q, 3 if tier == 'thorough' else 2]
    for r in refs(4 if tier == 'thorough' else 3):
        for bi in range(len(BASES)):
            if BASES[bi][0] != 'file':  # local files: see C15
                yield ['load', bi, r]


def run(case, st):
    kind = case[0]
    b = BASES[case[1]]
    base = url_of(b)
    root = '%s://%s' % (b[0], b[1])
    if kind == 'ref':
        segs = case[2]
        rel = '/'.join(segs)
        target = root + '/' + '/'.join(merge(b[2], segs))
        atarget = root + '/' + '/'.join(merge([], segs))
        for frag in FRAGS:
            f = '' if frag is None else '#' + frag
            wf = f if frag else ''
            for ref, want in ((rel, target), ('/' + rel, atarget), ('./' + rel, target),
                              ('//other/' + '/'.join(merge([], segs)), b[0] + '://other/' + '/'.join(merge([], segs))),
                              ('http://o/' + rel, 'http://o/' + rel), ('file:///' + rel, 'file:///' + rel),
                              ('https://o:1' + '/' + rel, 'https://o:1/' + rel)):
                st.state(base + ' ' + ref + f)
                st.trans()
                st.trace()
                got = normalize_jr(ref + f, base)
                expect_eq(got, want + wf, 'normalising %r against %r' % (ref + f, base))
                # idempotent: the result is absolute
                expect_eq(normalize_jr(got, base), got, 'normalising an absolute reference')
                expect_eq(normalize_jr(got), got, 'normalising an absolute reference without a base')
                u, jp = jr_split(got)
                expect_eq((u, jp), (want, '#' + (frag or '')), 'splitting %r' % got)
        expect_eq(derelativise_url(root + '/' + '/'.join(b[2] + segs)), target, 'removing dot segments')
    elif kind == 'base':
        for frag in FRAGS:
            if frag is None:
                continue
            st.state(base + '#' + frag)
            st.trans()
            st.trace()
            got = normalize_jr('#' + frag, base)
            expect_eq(got, base + ('#' + frag if frag else ''), 'normalising a local reference')
            expect_eq(jr_split(got), (base, '#' + frag), 'splitting a local reference')
            expect_eq(normalize_jr('#' + frag), '#' + frag, 'local reference without a base')
            expect_eq(jr_split('#' + frag), ('', '#' + frag), 'splitting a local reference without a base')
        expect_eq(normalize_jr(None, base), None, 'no reference')
        expect_eq(jr_split(base), (base, '#'), 'splitting a document URL')
        expect_eq(normalize_url(base), base, 'normalising an absolute URL')
    elif kind == 'dir':
        folder = root + ''.join('/' + s for s in b[2])
        for doc in ('x.json', 'swagger.yaml', 'r.yml', 'a.b.json'):
            expect_eq(url_dirname(folder + '/' + doc) or '', folder + ('' if b[2] else '/'),
                      'folder of %r' % (folder + '/' + doc))
            for name in ('pet', 'o.json', 'a/b', '.hid/x', '...', 'x.', 'a//b', '-'):
                want = folder + '/' + name
                st.state(want + doc)
                st.trans()
                for d in (url_dirname(folder + '/' + doc), folder, folder + '/'):
                    for nm in (name, '/' + name):
                        st.trace()
                        expect_eq(url_join(d, nm), want, 'joining %r to %r' % (nm, d))
        for doc in ('docs', 'api-docs', 'myjson', 'xyaml', 'json'):
            f2 = folder + '/' + doc
            expect_eq(url_dirname(f2), f2, 'folder of a folder URL')
            expect_eq(url_dirname(f2 + '/'), f2 + '/', 'folder of a folder URL')
            st.trace(2)
    elif kind == 'folder':
        # references to folders: the slash at the end and empty names are part of the place
        for k in range(4):
            for names in itertools.product(['a', 'v1.0', '..', '.', '..a', '.a.', ''], repeat=k):
                for tail in ('', '/', '//x', '/x//', '//'):
                    rel = '/'.join(names) + tail
                    if not rel or rel.startswith('/') or names and names[-1] in ('.', '..') and not tail:
                        continue
                    ref = tail and rel.split('/')
                    path = merge(b[2], ref or list(names))
                    if not path[0]:     # two slashes at the start would announce a host
                        continue
                    want = root + '/' + '/'.join(path)
                    for frag in ('', '#/x'):
                        st.state(base + ' folder ' + rel + frag)
                        st.trans()
                        st.trace()
                        expect_eq(normalize_jr(rel + frag, base), want + frag, 'normalising %r against %r' % (rel + frag, base))
    elif kind == 'query':
        # a reference has its own query, that of the document is not part of the folder
        bq = QUERIES[case[2]]
        doc_url = base + bq
        rs = [r for r in refs(case[3]) if r[0]] + [None]
        for segs in rs:
            rel = '/'.join(segs) if segs else ''
            target = root + '/' + '/'.join(merge(b[2], segs)) if segs else base + (bq[:2] if bq.startswith(';') else '')
            for q in QUERIES:
                if not segs and not q.startswith('?'):
                    continue
                for frag in (None, '', '/x~0y', '/a?b'):
                    f = '' if frag is None else '#' + frag
                    wf = f if frag else ''
                    forms = [(rel + q, target + q), ('http://o/x.json' + q, 'http://o/x.json' + q), ('//o/x.json' + q, b[0] + '://o/x.json' + q)]
                    if segs:
                        atarget = root + '/' + '/'.join(merge([], segs))
                        forms += [('./' + rel + q, target + q), ('/' + rel + q, atarget + q)]
                    for ref, want in forms:
                        st.state('%s %s%s' % (doc_url, ref, f))
                        st.trans()
                        st.trace()
                        got = normalize_jr(ref + f, doc_url)
                        expect_eq(got, want + wf, 'normalising %r against %r' % (ref + f, doc_url))
                        expect_eq(normalize_jr(got, doc_url), got, 'normalising an absolute reference')
                        expect_eq(jr_split(got), (want, '#' + (frag or '')), 'splitting %r' % got)
                if b[0] == 'file' or target + q == doc_url:
                    continue
                app = MemApp({doc_url: {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}, 'definitions': {'A': {'$ref': rel + q + '#/S'}, 'B': {'$ref': '#/definitions/C'}, 'C': {'title': 'C'}}},
                              target + q: {'S': {'title': 'T', 'items': {'$ref': '#/R'}}, 'R': {'title': 'R'}}}, doc_url, '2.0')
                expect_eq(sorted(app.log), sorted([doc_url, target + q]), 'documents fetched')
                a = app.root.definitions['A'].get_attrs('migration').ref_obj
                expect_eq((a.title, a.items.get_attrs('migration').ref_obj.title, app.root.definitions['B'].get_attrs('migration').ref_obj.title), ('T', 'R', 'C'), 'referenced content')
        expect_eq(normalize_jr('#/x', doc_url), doc_url + '#/x', 'a local reference')
        expect_eq(jr_split(doc_url + '#/x'), (doc_url, '#/x'), 'splitting a local reference')
    elif kind == 'load':
        segs = case[2]
        target = root + '/' + '/'.join(merge(b[2], segs))
        if target == base:
            return
        for frag, doc in (('', {'type': 'integer', 'title': 'T'}), ('#/S', {'S': {'type': 'integer', 'title': 'T'}})):
            docs = {base: {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {},
                           'definitions': {'A': {'$ref': '/'.join(segs) + frag}}},
                    target: doc}
            app = MemApp(docs, base, '2.0')
            expect_eq(sorted(app.log), sorted([base, target]), 'documents fetched')
            a = app.root.definitions['A'].get_attrs('migration')
            expect_eq(a.normalized_ref, target + frag, 'normalised reference')
            expect_eq(a.ref_obj.title, 'T', 'referenced content')
            st.state('load ' + base + ' ' + '/'.join(segs) + frag)
            st.trans()
            st.trace()
    st.outcome(kind)
