"""Registry of harnesses (imported by the symbolic side and by the replay)."""

HARNESSES = {}          # name -> Harness


class Harness(object):
    def __init__(self, fn, prop, name, params, opts, about):
        self.fn, self.prop, self.name, self.params, self.opts, self.about = fn, prop, name, params, opts, about


def harness(prop, params=(None,), thorough=None, about='', **opts):
    """params: list of parameter values (one symbolic exploration each) for the quick tier,
    `thorough`: the list for the thorough tier (default: the same)"""
    def deco(fn):
        name = '%s.%s' % (prop, fn.__name__)
        o = dict(opts)
        HARNESSES[name] = Harness(fn, prop, name,
                                  {'quick': list(params), 'thorough': list(thorough if thorough is not None else params)},
                                  o, about or (fn.__doc__ or '').strip())
        return fn
    return deco
