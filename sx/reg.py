"""Registry of harnesses per property."""
REG = {}
META = {}


class H:
    def __init__(self, prop, name, fn, funcs, bounds, opts):
        self.prop, self.name, self.fn, self.funcs, self.bounds, self.opts = prop, name, fn, funcs, bounds, opts


def harness(prop, name, funcs=(), bounds='', **opts):
    """opts: tier ('quick' = both tiers, 'thorough' = thorough only), max_paths, timeout_ms, hunt, validate, known"""
    def deco(fn):
        REG.setdefault(prop, []).append(H(prop, name, fn, list(funcs), bounds, opts))
        return fn
    return deco


def meta(prop, **kw):
    META.setdefault(prop, {}).update(kw)
