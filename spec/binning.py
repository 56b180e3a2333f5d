"""Halving the time resolution along one axis."""
import numpy as np

def pairs(data, axis):
    """first and second frames of consecutive pairs, along the last axis"""
    f = np.moveaxis(data, axis, -1)
    m = f.shape[-1] // 2
    return f[..., 0:2 * m:2], f[..., 1:2 * m:2]

def placed(x, axis, out_axis):
    return np.moveaxis(x, -1, axis if out_axis is None else out_axis)

def ref_mean(data, axis=0, out_axis=None, **kw):
    a, b = pairs(data, axis)
    return placed((a + b) / 2, axis, out_axis)

def ref_first(data, axis=0, out_axis=None, **kw):
    a, b = pairs(data, axis)
    return placed(a, axis, out_axis)

def ref_second(data, axis=0, out_axis=None, **kw):
    a, b = pairs(data, axis)
    return placed(b, axis, out_axis)

def refused(*args, **kw):
    raise ValueError("binning")
