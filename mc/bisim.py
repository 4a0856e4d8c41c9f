"""Coinductive comparison of two trees of loaded objects, including everything their references carry."""
from core import Fail, expect, expect_eq, short, same
from graph import real
from pyopenapi.migration.spec import Base2Obj, _Map, _List


def plain(x):
    """without the text of references"""
    if isinstance(x, dict):
        return dict((k, '' if k == '$ref' and isinstance(v, str) else plain(v)) for k, v in x.items())
    return [plain(v) for v in x] if isinstance(x, list) else x


class Bisim(object):
    """two trees are equal, including everything their references carry"""

    def __init__(self, text=True):
        self.seen, self.todo, self.text = set(), [], text

    def check(self, a, b):
        self.todo = [('#', a, b)]
        while self.todo:
            self.visit(*self.todo.pop())

    def visit(self, where, a, b):
        try:
            a, b = real(a), real(b)
        except ReferenceError:
            raise Fail('%s: what a reference carried is gone' % where)
        expect(type(a).__name__ == type(b).__name__, '%s: %s instead of %s', where, type(b).__name__, type(a).__name__)
        if isinstance(a, _Map):
            expect_eq(sorted(b.keys()), sorted(a.keys()), '%s: keys' % where)
            self.todo += [(where + '/' + k, a[k], b[k]) for k in a.keys()]
        elif isinstance(a, _List):
            expect_eq(len(b), len(a), '%s: length' % where)
            self.todo += [('%s/%d' % (where, i), a[i], b[i]) for i in range(len(a))]
        elif isinstance(a, Base2Obj):
            if (id(a), id(b)) in self.seen:
                return
            self.seen.add((id(a), id(b)))
            try:
                x, y = a.dump(), b.dump()
            except ReferenceError:
                raise Fail('%s: what a reference carried is gone' % where)
            if not self.text:
                x, y = plain(x), plain(y)
            if not same(x, y):
                expect_eq(y, x, '%s: content' % where)
            for k in a.__children__:
                self.todo.append(('%s/%s' % (where, k), getattr(a, k), getattr(b, k)))
            x, y = a.get_attrs('migration'), b.get_attrs('migration')
            expect((x is None) == (y is None), '%s: attributes', where)
            for k in ('normalized_ref', 'ref_obj', 'final_obj') if self.text else ('ref_obj', 'final_obj'):
                if x is not None and hasattr(x, k):
                    try:
                        p, q = getattr(x, k), getattr(y, k)
                    except ReferenceError:
                        raise Fail('%s: %s is gone' % (where, k))
                    self.todo.append(('%s>%s' % (where, k), p, q))
        else:
            expect(same(a, b), '%s is %s instead of %s', where, short(b), short(a))
