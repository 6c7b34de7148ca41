'''Monitors: wrappers attached, from here, to the public methods of the real classes.

A monitor observes every call of a method made while a case is running - including those that curver makes
to itself - and decides some of them against the reference model.  Nothing in /repo is edited: with no monitor
attached the code runs untouched.  A method that does not exist (any more) is simply not monitored, and since each
property has a minimum number of decided events a monitor that is never reached makes the run inconclusive.'''

import functools
import sys


class _Current:
    ctx = None
    inside = False


CURRENT = _Current()


def attach(cls, name, after, limit=None):
    '''Call after(ctx, self, args, kwargs, result) whenever cls.name returns.

    Only the first `limit` calls of each case are passed on.  Calls that the monitor itself causes are not monitored.'''
    original = cls.__dict__.get(name)
    if original is None or not callable(original): return False
    kind = f'{cls.__name__}.{name}'

    @functools.wraps(original)
    def wrapper(self, *args, **kwargs):
        result = original(self, *args, **kwargs)
        ctx = CURRENT.ctx
        if ctx is not None and not CURRENT.inside:
            ctx.observe(kind)
            if limit is None or ctx.events['seen ' + kind] <= limit:
                CURRENT.inside = True
                try:
                    after(ctx, self, args, kwargs, result)
                finally:
                    CURRENT.inside = False
        return result
    setattr(cls, name, wrapper)
    return True


def attach_all(module):
    module.monitors(sys.modules[__name__])
