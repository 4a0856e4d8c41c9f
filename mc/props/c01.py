"""C01: JSON Pointer composition and splitting are lossless inverses.

Explored: the tree of composition steps.  A state is a pointer (the result of a chain of
compositions); a transition appends one more name.  Reference model: RFC 6901 text computed
character by character, and the list of names itself.
"""
import itertools
from core import Fail, expect, expect_eq
from pyopenapi.utils import jp_compose, jp_split

ID, LEVEL = 'C01', 'model_checking'
RULE = ('a state is a composed pointer text, a transition composes one more name onto it; every '
        'name of the alphabet is tried at every position up to the bound, in one step and in every '
        'cut into several steps')
BOUNDS = {'quick': 'names: all strings over {~,0,1,/,a} of length<=4 (1 name) and <=2 (2 names) plus special '
                   'names, 3 names of a 12-name core, 4-6 names of a 4-name core, long names',
          'thorough': 'names of length<=5 (1 name), <=3 (2 names), 4 names of the 12-name core, 4-8 names of the 4-name core'}
ASSUMPTIONS = ['the empty base with an empty first name is excluded: RFC 6901 text then starts '
               'without a base and the library documents bases such as "#" or a URL']

CHARS = '~01/a'
SPECIAL = ['#', '{id}', 'a b', 'A', '%', '%7E', '$ref', u'\u00e9', u'\U0001F600', '\\', '"', '~~', '//',
           '-', '0', '10', '.', '..', 'x-y', '\n', '?', 'http://h/a.json#/b', '~2', '1~', '~01', '~10']
CORE = ['', '~', '/', '~0', '~1', '0', 'a', '~/', '/~', '~01', '1', 'a/b']
BASES = ['#', '#/a', 'http://h/d.json#', 'http://h/d.json#/x~1y', 'file:///a/b.yaml#/p', '#/a/~0', 'k']


def words(n):
    for k in range(n + 1):
        for t in itertools.product(CHARS, repeat=k):
            yield ''.join(t)


def cases(tier):
    one = 5 if tier == 'thorough' else 4
    two = 3 if tier == 'thorough' else 2
    names1 = list(words(one)) + SPECIAL
    names2 = list(words(two)) + SPECIAL
    for b in BASES:
        yield ['none', b]
    for b in BASES:
        for n in names1:
            yield ['seq', b, [n]]
    for b in BASES:
        for x in names2:
            yield ['all2', b, x, two]
    for b in BASES[:2]:
        for x in CORE:
            for y in CORE:
                yield ['all3', b, [x, y], 2 if tier == 'thorough' else 1]
    for k in (4, 5, 6) if tier == 'quick' else (4, 5, 6, 7, 8):
        for t in itertools.product(['~1', '/', '', 'a'], repeat=k):
            yield ['seq', '#', list(t)]
    for n in (40, 255, 1000):
        for c in CHARS:
            yield ['seq', '#/a', [c * n, c * n]]
    for x in names1:
        yield ['nobase', [x]]
        yield ['maxsplit', x]


def esc(name):
    return ''.join({'~': '~0', '/': '~1'}.get(c, c) for c in name)


def base_tokens(base):
    out = []
    for tok in base.split('/'):
        s, i = '', 0
        while i < len(tok):
            if tok[i] == '~' and i + 1 < len(tok) and tok[i + 1] in '01':
                s += '~' if tok[i + 1] == '0' else '/'
                i += 2
            else:
                s += tok[i]
                i += 1
        out.append(s)
    return out


def check_seq(base, names, st):
    arg = list(names)
    got = jp_compose(arg, base=base)
    want = base + ''.join('/' + esc(n) for n in names)
    st.state(want)
    st.trans(len(names))
    expect_eq(got, want, 'composing %r onto %r' % (names, base))
    expect_eq(arg, list(names), 'the caller\'s list after composing')
    expect_eq(jp_split(got), base_tokens(base) + list(names), 'splitting %r' % got)
    st.trace()
    # every cut into steps
    for mask in range(1 << max(0, len(names) - 1)):
        cur, chunk = base, [names[0]]
        for i in range(1, len(names)):
            if mask >> (i - 1) & 1:
                cur, chunk = jp_compose(chunk, base=cur), []
            chunk.append(names[i])
        cur = jp_compose(chunk[0] if len(chunk) == 1 else chunk, base=cur)
        st.trace()
        expect_eq(cur, want, 'composing %r onto %r in steps (cut %d)' % (names, base, mask))


def run(case, st):
    kind = case[0]
    if kind == 'seq':
        check_seq(case[1], case[2], st)
        # a single name may be given directly
        expect_eq(jp_compose(case[2][0], base=case[1]), case[1] + '/' + esc(case[2][0]), 'single name')
    elif kind == 'all2':
        for y in list(words(case[3])) + SPECIAL:
            check_seq(case[1], [case[2], y], st)
    elif kind == 'all3':
        for z in CORE:
            check_seq(case[1], case[2] + [z], st)
            if case[3] > 1:
                for w in CORE:
                    check_seq(case[1], case[2] + [z, w], st)
    elif kind == 'none':
        expect_eq(jp_compose(None, base=case[1]), case[1], 'composing no name')
        expect_eq(jp_compose([], base=case[1]), case[1], 'composing no names')
        expect_eq(jp_split(case[1]), base_tokens(case[1]), 'splitting a base')
        expect_eq(jp_split(''), [], 'splitting nothing')
        expect_eq(jp_split(None), [], 'splitting None')
        st.state(case[1])
        st.trace(5)
    elif kind == 'nobase':
        n = case[1][0]
        for b in (None, ''):
            expect_eq(jp_compose(case[1], base=b), esc(n), 'composing without a base')
            expect_eq(jp_compose(n, base=b), esc(n), 'composing without a base')
            if n:
                expect_eq(jp_split(esc(n)), [n], 'splitting a single name')
            st.trace(2)
        st.state('nobase:' + esc(n))
        if n:
            for m in CORE:
                t = jp_compose([n, m])
                expect_eq(t, esc(n) + '/' + esc(m), 'composing two names without a base')
                expect_eq(jp_split(t), [n, m], 'splitting two names')
                st.state('nobase:' + t)
                st.trans()
                st.trace()
    elif kind == 'maxsplit':
        n = case[1]
        for m in ('a', 'b', 'a-b'):
            t = jp_compose([m, n], base='#')
            expect_eq(jp_split(t, 1)[0], '#', 'first token of a bounded split')
            expect_eq(jp_split(t, 1)[1:] != [], True, 'rest of a bounded split')
            expect_eq(jp_split(t, 2)[1], m, 'second token of a bounded split')
            expect_eq(len(jp_split(t, 1)), 2, 'bounded split')
            # what is not split off is still a pointer
            expect_eq(jp_split(jp_split(t, 1)[1]), [m, n], 'splitting the rest of a bounded split')
            expect_eq(jp_split(t, 2)[2], esc(n), 'rest of a bounded split')
            expect_eq(jp_split(jp_compose([m, n]), 9), [m, n], 'a split bounded by more than there is')
            st.trace(2)
    st.outcome(kind)
