"""arguments much longer than the exhaustive bounds: constants, with a few symbolic entries"""
import numpy as np


def pattern(k, c=0):
    """dyadic constants between -1.5 and 1.5, without period 2^j"""
    return float((k * 7 + c * 5) % 13 - 6) / 4


def wide(ctx, name, n, at, c=0, **kw):
    v = ctx.zeros(n)
    for k in range(n):
        v[k] = pattern(k, c)
    for k in at:
        v[k] = ctx.real("%s_%d" % (name, k), **kw)
    return v


def ends(n):
    return (0, n // 2 + 1, n - 1)
