"""Rule modules; each registers property functions in REGISTRY."""

REGISTRY = {}


def prop(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f

    return deco


from . import memcache, config, diskcache, lookup, handlers, utils, startup  # noqa: E402,F401
