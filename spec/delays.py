"""Delay axes and level layout of averaged and merged data."""
import numpy as np
from cddm.multitau import convolve, choose_data, triangular_kernel, fold_data

def nlevels(n, size):
    level = 0
    while size * 2**level < n:
        level = level + 1
    return level + 1

def coarser(data, binning):
    """data at half the resolution; element i belongs to delay 2*i"""
    if binning == 1:
        return convolve(data)[..., ::2]
    if binning == 0:
        return data[..., ::2]
    return choose_data(data, axis=-1)

def ref_multilevel(data, level_size=16, binning=1, fold=None):
    if binning not in (0, 1, 2): raise ValueError("binning")
    if level_size < 2: raise ValueError("size")
    if np.iscomplexobj(data):
        if fold is None: raise ValueError("fold")
        if fold: data = fold_data(data)
    L = nlevels(data.shape[-1], level_size)
    out = np.full((L,) + data.shape[:-1] + (level_size,), np.nan, data.dtype)
    for l in range(L):
        m = min(level_size, data.shape[-1])
        out[l, ..., 0:m] = data[..., 0:m]
        if l < L - 1: data = coarser(data, binning)
    return out

def slow_axis(levels, n):
    """delays of the second halves of the levels, in units of the spacing of the first one"""
    return [np.arange(n // 2, n) * 2**l for l in range(levels)]

def ref_merge_half(data):
    n = data.shape[-1]
    L = data.shape[0]
    if n % 2 != 0: raise ValueError("odd")
    x = np.concatenate(slow_axis(L, n))
    y = np.concatenate([data[l][..., n // 2:] for l in range(L)], axis=-1)
    return x, y

def ref_merge_full(data):
    n = data.shape[-1]
    L = data.shape[0]
    if n % 2 != 0: raise ValueError("odd")
    x = np.concatenate([np.arange(n)] + [2 * a for a in slow_axis(L - 1, n)])
    y = np.concatenate([data[0]] + [data[l][..., n // 2:] for l in range(1, L)], axis=-1)
    return x, y

def ref_merge_multilevel(data, mode="full"):
    if mode == "full": return ref_merge_full(data)
    if mode == "half": return ref_merge_half(data)
    raise ValueError("mode")

def ref_log_average(data, size=8, fold=None):
    if size < 1: raise ValueError("size")
    return ref_merge_full(ref_multilevel(data, 2 * size, 1, fold))

def ref_log_merge(lin, multi, binning=1, fold=None):
    if binning not in (0, 1, 2): raise ValueError("binning")
    if np.iscomplexobj(lin) or np.iscomplexobj(multi):
        if fold is None: raise ValueError("fold")
    if np.iscomplexobj(lin) and fold: lin = fold_data(lin)
    if np.iscomplexobj(multi) and fold: multi = fold_data(multi)
    n = multi.shape[-1]
    if lin.shape[-1] % n != 0: raise ValueError("period")
    period = lin.shape[-1] // n
    x, y = ref_merge_full(ref_multilevel(lin, n, binning, False))
    xs, ys = ref_merge_half(multi)
    return np.concatenate((x, 2 * period * xs)), np.concatenate((y, ys), axis=-1)

def ref_t_multilevel(levels, n, period=1):
    return [[2 * period * 2**l * i for i in range(n)] for l in range(levels)]
def run_t_multilevel(levels, n, period=1):
    from cddm.multitau import t_multilevel
    return t_multilevel((levels, n), period)

def ref_multilevel_count(count, level_size, binning=1):
    if level_size < 2: raise ValueError("size")
    L = nlevels(count.shape[-1], level_size)
    out = np.full((L, level_size), np.nan)
    for l in range(L):
        if binning == 1: k = triangular_kernel(l)
        else: k = np.array([1.])
        a = np.convolve(k, count, "same")[::2**l]
        b = np.convolve(k**2, count**2, "same")[::2**l]
        m = min(level_size, a.shape[-1], b.shape[-1])
        out[l, 0:m] = a[0:m]**3 / b[0:m]
    return out
def ref_log_average_count(count, size=8):
    return ref_merge_full(ref_multilevel_count(count, 2 * size, 1))
def ref_log_merge_count(lin, multi, binning=1):
    n = multi.shape[-1]
    if lin.shape[-1] % n != 0: raise ValueError("period")
    period = lin.shape[-1] // n
    x, y = ref_merge_full(ref_multilevel_count(lin, n, binning))
    xs, ys = ref_merge_half(multi)
    return np.concatenate((x, 2 * period * xs)), np.concatenate((y, ys), axis=-1)
