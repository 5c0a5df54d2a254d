"""Memoise two pure third-party functions so that exploration is faster.

* sympy substitution of immutable expressions (the scale-factor evaluation), keyed on exact arguments;
* copying of unyt units, which are immutable value objects.
Neither touches the code under test.
"""

import sympy
import unyt
from sympy.core.basic import Basic

_orig = Basic.subs
_memo = {}


def _subs(self, *args, **kw):
    if kw or len(args) != 2 or not isinstance(args[1], (int, float)):
        return _orig(self, *args, **kw)
    k = (type(self), self, args[0], type(args[1]), args[1])
    try:
        return _memo[k]
    except KeyError:
        r = _orig(self, *args)
        if len(_memo) < 100000:
            _memo[k] = r
        return r
    except TypeError:
        return _orig(self, *args)


def install():
    Basic.subs = _subs
    unyt.Unit.__deepcopy__ = lambda self, memo=None: self
