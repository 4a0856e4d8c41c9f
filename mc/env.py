"""Closed environment for the code under test: applications whose documents live in memory."""
import copy
from pyopenapi.migration.base import ApiBase
from pyopenapi.migration.resolve import Resolver
from pyopenapi.migration.getter import SimpleGetter
from pyopenapi import utils


class Missing(IOError):
    pass


class BaseApp(ApiBase):
    def prepare_obj(self, obj, jref):
        return obj


def memory_resolver(docs, log=None, fault=None, hook=None):
    """a Resolver that loads from `docs` (url -> mapping | text | bytes) and logs every fetch"""
    count = [0]

    def callback(url):
        if log is not None:
            log.append(url)
        i = count[0]
        count[0] += 1
        if fault is not None:
            r = fault(i, url)
            if r is not None:
                return r
        if url not in docs:
            raise Missing(url)
        d = docs[url]
        return copy.deepcopy(d) if isinstance(d, dict) else d
    getter = type('MemGetter', (SimpleGetter, ), {'__simple_getter_callback__': callback})
    if hook is not None:
        return Resolver(url_load_hook=hook, default_getter=getter)
    return Resolver(default_getter=getter)


class MemApp(BaseApp):
    """loads `root` from `docs` and migrates it to version `to` (unless to is None)"""

    def __init__(self, docs, root='http://h/root.json', to=None, fault=None, load=True, sep=None, hook=None):
        self.docs = docs
        self.log = []
        kw = {} if sep is None else {'sep': sep}
        super(MemApp, self).__init__(root, resolver=memory_resolver(docs, self.log, fault, hook), **kw)
        self.root_url = root
        self.raw = self.root = None
        if load:
            self.raw = self.load_obj(root)
            if to:
                self.root = self.migrate_obj(self.raw, root, to)
