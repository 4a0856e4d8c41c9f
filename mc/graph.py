"""Reference oracle for loaded trees: every object of a tree, and of every tree its references lead to, is compared with the
source at its address (document URL, pointer tokens), and every reference has to carry the object at the address it names."""
import weakref
from urllib.parse import urljoin
import spec
from core import Fail, expect, same, short
from docs import walk, tokens, pointer, MISSING


def real(x):
    return x.get_parent.__self__ if isinstance(x, weakref.ProxyTypes) else x


def address(ref, base):
    """(url, tokens) that a reference used in document `base` names"""
    url, _, frag = ref.partition('#')
    return urljoin(base, url) if url else base, tuple(tokens(frag))


class Graph(object):
    """`version`: the tables to read the tree and the sources with"""

    def __init__(self, docs, version, identity=True):
        self.docs, self.version, self.identity = docs, version, identity
        self.at, self.seen = {}, {}
        self.exact = False      # nothing is relocated: references keep their meaning, as text, too
        self.refs = 0
        self.todo = []

    def check(self, o, url, toks, shape):
        """the object o stands for the source at this address"""
        self.visit(o, url, tuple(toks), shape)
        while self.todo:
            self.visit(*self.todo.pop())

    def visit(self, o, url, toks, shape):
        raw = walk(self.docs[url], list(toks))
        where = '%s%s' % (url, pointer(toks))
        if raw is MISSING:
            raise Fail('nothing at %s, but there is an object %s' % (where, short(o, 200)))
        tab = spec.TABLES[self.version]
        if isinstance(shape, list):
            kind, sub = shape
            if kind == 'bool' and isinstance(raw, bool):
                expect(o is raw, '%s is %r, expected %r', where, o, raw)
            elif kind == 'bool':
                self.visit(o, url, toks, sub)
            elif kind == 'list':
                expect(o is not None and len(o) == len(raw), '%s has %s elements, expected %d', where, o and len(o), len(raw))
                for i in range(len(raw)):
                    self.visit(o[i], url, toks + (str(i), ), sub)
            else:
                expect(o is not None and sorted(o.keys()) == sorted(raw), '%s has keys %s, expected %s', where, o and sorted(o.keys()), sorted(raw))
                for k in raw:
                    self.visit(o[k], url, toks + (k, ), sub)
            return
        if shape in ('any', 'str'):
            expect(same(o, raw), '%s is %s, expected %s', where, short(o, 200), short(raw, 200))
            return
        o = real(o)
        expect(o is not None, 'no object at %s', where)
        key = (url, toks)
        if key in self.at:
            if self.identity:
                expect(self.at[key] is o, 'two objects stand for %s', where)
            if id(o) in self.seen[key]:
                return
            self.seen[key].add(id(o))
        else:
            self.at[key] = o
            self.seen[key] = set([id(o)])
        name = spec.kind_of(raw, shape)
        if tab[name] is None:
            self.visit(o, url, toks, ['map', 'PathItem'])
            return
        ref = isinstance(raw, dict) and '$ref' in tab[name] and raw.get('$ref')
        expect(type(o).__name__.split('.')[-1].rstrip('_') == name.rstrip('_'), '%s is a %s, expected a %s', where, type(o).__name__, name)
        if ref:
            self.refs += 1
            attrs = o.get_attrs('migration')
            target = getattr(attrs, 'ref_obj', None) if attrs is not None else None
            to = address(ref, url)
            expect(target is not None, 'the reference %r at %s carries nothing', ref, where)
            text = getattr(o, '$ref')
            expect(address(text, url)[0] == to[0], 'the reference %r at %s reads %r now, which names another document', ref, where, text)
            if self.exact:
                expect(address(text, url) == to, 'the reference %r at %s reads %r now, which names something else', ref, where, text)
            self.todo.append((target, to[0], to[1], shape))
        for k, sub in tab[name].items():
            if k == '$ref':
                continue
            if raw.get(k) is not None:
                v = getattr(o, k)
                expect(v is not None, '%s lost %r', where, k)
                self.visit(v, url, toks + (k, ), sub)

