"""Harness registry. Harness modules import only this, so they load without a solver."""
class H:
    def __init__(self, fn, quick, thorough, opts, native, title, bounds):
        self.fn, self.name, self.quick, self.thorough, self.opts, self.native, self.title, self.bounds = fn, fn.__name__, quick, thorough, opts, native, title, bounds
def harness(quick=({},), thorough=(), opts=None, native=None, title="", bounds=""):
    """native: None (placeholder) or 'sym' (real C++ recurrence on symbolic scalars / real build in replays)"""
    def deco(fn):
        import sys
        m = sys.modules[fn.__module__]
        if not hasattr(m, "HARNESSES"): m.HARNESSES = []
        m.HARNESSES.append(H(fn, list(quick), list(quick) + list(thorough), opts or {}, native, title or (fn.__doc__ or "").strip().split("\n")[0], bounds))
        return fn
    return deco
