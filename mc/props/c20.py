"""C20: scoped names compose, split and look up without confusion.

Explored: (1) every list of names up to a length over an alphabet of look-alike names, for several
separators: step-by-step composition, split and re-composition against plain string joining;
(2) every scoped dictionary with up to k entries over those names, and in each every key of every form
(full name, tuple of names, trailing names, absent names) against a search over the name lists;
(3) every sequence of additions, replacements and removals up to a depth on one dictionary.
"""
import itertools
from core import Fail, expect, expect_eq
from pyopenapi import utils, consts

ID, LEVEL = 'C20', 'model_checking'
RULE = ('a state is a scoped name or the content of a scoped dictionary; a transition composes or splits '
        'a name, changes the dictionary or looks a key up; each result is compared with the model on lists of names')
BOUNDS = {'quick': 'lists of <= 4 names; dictionaries of <= 3 entries out of 24 names of depth <= 3; edit sequences of <= 3',
          'thorough': 'lists of <= 5 names; dictionaries of <= 4 entries; edit sequences of <= 4'}
ASSUMPTIONS = ['names are non-empty and share no character with the separator, as the separator is chosen to be',
               'an unknown name is reported with KeyError and an ambiguous one with ValueError']

SEPS = [consts.SCOPE_SEPARATOR, '!', '--', '.', '::']
NAMES = ['a', 'aa', 'ba', 'b', 'get', 'do_get', 'A', '0', 'a b', u'\u00e9']
PATHS = ([(n, ) for n in ('get', 'a', 'ba')] +
         [p for p in itertools.product(('a', 'ba'), ('get', 'do_get', 'a'))] +
         [p for p in itertools.product(('a', 'b'), ('a', 'ba'), ('get', 'do_get'))] +
         [('b', 'get'), ('b', 'a'), ('b', 'b', 'b'), ('a', 'get', 'a'), ('aa', 'get'), ('x', 'a', 'a')])


def cases(tier):
    deep = tier == 'thorough'
    for sep in SEPS:
        for n in range(1, (5 if deep else 4) + 1):
            yield ['names', sep, n]
    for si in range(3):
        for k in range(0, (4 if deep else 3) + 1):
            for lead in range(len(PATHS) if k else 1):
                yield ['dict', SEPS[si], k, lead]
    for first in range(len(EDITS)):
        yield ['edit', SEPS[0], first, 4 if deep else 3]


def run(case, st):
    {'names': run_names, 'dict': run_dict, 'edit': run_edit}[case[0]](st, *case[1:])


def run_names(st, sep, n):
    names = NAMES if n < 4 else NAMES[:7]
    for lst in itertools.product(names, repeat=n):
        cur = None
        for i, nm in enumerate(lst):
            prev = cur
            cur = utils.scope_compose(cur, nm, sep=sep)
            st.trans()
            expect_eq(cur, sep.join(lst[:i + 1]), 'composing %r onto %r with %r' % (nm, prev, sep))
            expect_eq(utils.scope_compose(cur, None, sep=sep), cur, 'composing nothing onto %r' % cur)
            if sep == consts.SCOPE_SEPARATOR:
                expect_eq(utils.scope_compose(prev, nm), cur, 'default separator')
        expect_eq(utils.scope_compose('', lst[0], sep=sep), lst[0], 'composing onto the empty scope')
        expect_eq(list(utils.scope_split(cur, sep=sep)), list(lst), 'splitting %r with %r' % (cur, sep))
        if sep == consts.SCOPE_SEPARATOR:
            expect_eq(list(utils.scope_split(cur)), list(lst), 'default separator')
        # composing two scopes
        for cut in range(1, n):
            a, b = sep.join(lst[:cut]), sep.join(lst[cut:])
            expect_eq(utils.scope_compose(a, b, sep=sep), cur, 'composing %r and %r' % (a, b))
            st.trans()
        st.trace()
        st.state(['n', sep, cur])
    expect_eq(list(utils.scope_split(None, sep=sep)), [None], 'splitting nothing')
    expect(utils.scope_compose(None, None, sep=sep) is None, 'composing nothing')


MISSING, AMBIGUOUS = 'missing', 'ambiguous'


def model(content, key):
    if key in content:
        return content[key]
    hit = [p for p in content if len(p) > len(key) and p[len(p) - len(key):] == key]
    if not hit:
        return MISSING
    return content[hit[0]] if len(hit) == 1 else AMBIGUOUS


def look(d, key):
    try:
        return d[key]
    except KeyError:
        return MISSING
    except ValueError:
        return AMBIGUOUS


KEYS = sorted(set(p[i:] for p in PATHS for i in range(len(p))) |
              {('t', ), ('et', ), ('o_get', ), ('a', 'x'), ('x', ), ('a', 'b', 'get'), ('aba', ), ('a', 'a', 'a', 'get'), ('c', 'get')})


def check(st, d, content, sep, hist):
    for key in KEYS:
        want = model(content, key)
        got = look(d, sep.join(key))
        what = 'dictionary %r (separator %r)%s: key ' % (sorted(sep.join(p) for p in content), sep, hist)
        expect_eq(got, want, what + repr(sep.join(key)))
        expect_eq(look(d, tuple(key)), want, what + repr(tuple(key)))
        if len(key) > 1:
            mixed = (sep.join(key[:-1]), key[-1])
            expect_eq(look(d, mixed), want, what + repr(mixed))
        st.outcome([want, len(key)])
        st.trans(2)
    expect_eq(look(d, sep + 'get'), MISSING, what + repr(sep + 'get'))
    expect_eq(dict(d), dict((sep.join(p), v) for p, v in content.items()), what + ': content after the lookups')
    st.trace()


def run_dict(st, sep, k, lead):
    if k == 0:
        combos = [()]
    else:
        combos = [(PATHS[lead], ) + c for c in itertools.combinations(PATHS[lead + 1:], k - 1)]
    for combo in combos:
        content = dict((p, 'v%d' % i) for i, p in enumerate(combo))
        d = utils.ScopeDict(dict((sep.join(p), v) for p, v in content.items()))
        if sep != consts.SCOPE_SEPARATOR:
            d.sep = sep
        st.state([sep, sorted(combo)])
        check(st, d, content, sep, '')


EDITS = [('set', p) for p in (('a', 'get'), ('ba', 'get'), ('a', 'a', 'get'), ('get', ), ('a', 'do_get'))] + \
        [('del', p) for p in (('a', 'get'), ('ba', 'get'), ('get', ))] + [('look', ('get', )), ('look', ('a', 'get'))]


def run_edit(st, sep, first, depth):
    for n in range(depth):
        for rest in itertools.product(range(len(EDITS)), repeat=n):
            d, content, hist = utils.ScopeDict(), {}, []
            for i, e in enumerate((first, ) + rest):
                op, p = EDITS[e]
                hist.append((op, sep.join(p)))
                st.trans()
                if op == 'set':
                    d[sep.join(p)] = i
                    content[p] = i
                elif op == 'del':
                    d.pop(sep.join(p), None)
                    content.pop(p, None)
                else:
                    expect_eq(look(d, sep.join(p)), model(content, p), 'after %r' % hist)
            if st.state([sep, sorted(content.items())]) or n < 2:
                check(st, d, content, sep, ' after %r' % hist)
