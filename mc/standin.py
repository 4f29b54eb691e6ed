"""A stand-in for numba where it is not installed: xgcm's own interpolation code then runs
as the plain Python it is written in.  Only the decorator is replaced."""

import re
import sys
import types

import numpy as np


def numba():
    try:
        import numba  # noqa: F401
    except ImportError:
        pass
    else:
        return
    if "xgcm" in sys.modules:
        raise RuntimeError("the stand-in has to come before xgcm")

    class Type:
        def __getitem__(self, _):
            return self

    def guvectorize(_types, signature, **_):
        ins, outs = signature.split("->")
        core = [x.split(",") if x else [] for x in re.findall(r"\((.*?)\)", ins)]
        out_core = outs.strip("()").split(",")

        def decorate(fn):
            def run(*args):
                args = [np.asarray(a) for a in args]
                lead = np.broadcast_shapes(
                    *[a.shape[: a.ndim - len(c)] for a, c in zip(args, core)]
                )
                size = {}
                for a, c in zip(args, core):
                    size.update(zip(c, a.shape[a.ndim - len(c) :]))
                args = [
                    np.broadcast_to(a, lead + a.shape[a.ndim - len(c) :])
                    for a, c in zip(args, core)
                ]
                out = np.empty(lead + tuple(size[d] for d in out_core), args[0].dtype)
                for i in np.ndindex(*lead):
                    fn(*[a[i] for a in args], out[i])
                return out

            return run

        return decorate

    m = types.ModuleType("numba")
    m.float64 = m.float32 = m.boolean = Type()
    m.guvectorize = guvectorize
    sys.modules["numba"] = m
