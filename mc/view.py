"""Content of an object tree, read member by member through the public attributes (not through dump())."""
import copy
import spec


def view(o, shape, version='3.0.0'):
    """plain content of an object of the given shape; members that are not set are absent"""
    tab = spec.TABLES[version]
    if isinstance(shape, list):
        kind, sub = shape
        if kind == 'bool':
            return o if isinstance(o, bool) else view(o, sub, version)
        if kind == 'list':
            return [view(x, sub, version) for x in o]
        return dict((k, view(o[k], sub, version)) for k in o.keys())
    if shape in ('any', 'str'):
        return copy.deepcopy(o)
    name = shape.rstrip('*')
    if type(o).__name__ == 'Reference' or shape.endswith('*') and hasattr(o, '__class__') and o.__class__.__name__ == 'Reference':
        return {'$ref': getattr(o, '$ref')}
    if tab[name] is None:
        return view(o, ['map', 'PathItem'], version)
    out = {}
    for k, s in tab[name].items():
        v = getattr(o, k)
        if v is None:
            continue
        out[k] = view(v, s, version)
    return out
