class H:
    """one harness: fn(S) builds symbolic inputs, runs the real code and states the property"""

    def __init__(self, name, fn, bounds='', cfg=None, must=(), max_paths=10 ** 9, weight=1.0):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.cfg = cfg or {}
        self.must = tuple(must)  # cover labels that have to be reached (vacuity guard)
        self.max_paths = max_paths
        self.weight = weight


def load_prop(pid):
    import importlib
    return importlib.import_module('vf.props.' + pid.lower())
