"""Known-bad fragments: every rule of C01, C02, C27 and C28 must fire on this file on each run."""
import os
import random
import warnings
import contextlib
from functools import lru_cache
import numpy as np

import pandas  # C27

_CACHE = {}
_COUNT = 0
_TABLE = np.arange(4)
_RNG = np.random.default_rng(0)


def mut_item(sig):
    y = np.asarray(sig)
    y[0] = 1.0
    return y


def mut_aug(sig: np.ndarray):
    sig *= 2
    return sig


def mut_out(x):
    np.multiply(x, 2, out=x)
    return x


def mut_method(x):
    x.T.sort()
    return x


def mut_attr(window):
    window.win_type = "hamming"


def mut_helper(sig, k):
    return _helper(sig[1:], k)


def _helper(v, k):
    v.fill(k)
    return v


def st_global(x):
    global _COUNT
    _COUNT += 1
    return x * _COUNT


def st_cache(n):
    if n not in _CACHE:
        _CACHE[n] = np.zeros(n)
    return _CACHE[n].copy()


def st_return():
    return _TABLE


def st_default(x, acc=[]):
    acc.append(x)
    return acc


@lru_cache(maxsize=None)
def st_lru(n):
    return np.zeros(n)


def st_attr(x):
    st_attr.calls = x
    return x


def nd_random(x):
    return x + random.random()


def nd_np(x):
    return x + np.random.rand()


def nd_rng(x):
    return x + _RNG.normal()


def nd_env(x):
    return x * float(os.environ.get("GAIN", "1"))


def nd_seterr(x):
    np.seterr(all="ignore")
    return np.log(x)


def nd_warn(x):
    warnings.simplefilter("ignore")
    return x


def sw_broad(x):
    try:
        return 1 / x
    except Exception:
        return 0


def sw_bare(x):
    try:
        return 1 / x
    except:
        return 0


def sw_suppress(x):
    with contextlib.suppress(Exception):
        x = 1 / x
    return x


def sw_finally(x):
    try:
        x = 1 / x
    finally:
        return x


class RootError(Exception):
    pass


class ParameterError(RootError):
    pass


def sw_param(x):
    try:
        return _check(x)
    except ParameterError:
        return None


def sw_disguise(x):
    try:
        return 1 / x
    except Exception as e:
        raise ParameterError("bad") from e


def sw_index(x):
    try:
        return _check(x)
    except (IndexError, TypeError):
        return x


def _check(x):
    if x < 0:
        raise ParameterError("x")
    return x
