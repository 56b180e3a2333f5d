"""Fourier planes: cropping and conversion between the full plane and the stored half plane."""
import numpy as np

def limit(kmax, size):
    """number of non-negative and negative wave numbers kept of an axis with both signs"""
    if kmax is None: return size, 0
    if kmax > size // 2: raise ValueError("limit")
    return kmax + 1, kmax

def half_limit(kmax, size):
    if kmax is None: return size
    if kmax > size - 1: raise ValueError("limit")
    return kmax + 1

def two_sided(x, pos, neg):
    """along the axis before the last"""
    return np.concatenate((x[..., :pos, :], x[..., x.shape[-2] - neg:, :]), axis=-2)

def ref_rfft2_crop(x, kimax=None, kjmax=None):
    if kimax is None and kjmax is None: return x
    p, n = limit(kimax, x.shape[-2])
    m = half_limit(kjmax, x.shape[-1])
    return two_sided(x[..., :m], p, n)

def ref_fft2_crop(x, kimax=None, kjmax=None):
    if kimax is None and kjmax is None: return x
    p, n = limit(kimax, x.shape[-2])
    q, m = limit(kjmax, x.shape[-1])
    x = np.concatenate((x[..., :q], x[..., x.shape[-1] - m:]), axis=-1)
    return two_sided(x, p, n)

def ref_as_rfft2_data(a, axes=(-2, -1)):
    """the two axes in front, see the calls"""
    return a[..., :a.shape[-1] // 2 + 1]

def ref_as_rfft2_conj(a, fill):
    h, w = a.shape[-2:]
    out = np.full(a.shape[:-1] + (w // 2 + 1,), fill, a.dtype)
    for j in range(1, w // 2 + 1):
        out[..., 0, j] = a[..., 0, w - j]
        for i in range(1, h):
            out[..., i, j] = a[..., h - i, w - j]
    return out

def ref_as_rfft2_mask(a):
    h, w = a.shape[-2:]
    out = np.zeros(a.shape[:-1] + (w // 2 + 1,), bool)
    for i in range(h):
        out[..., i, 0] = a[..., i, 0]
    for j in range(1, w // 2 + 1):
        out[..., 0, j] = a[..., 0, j] | a[..., 0, w - j]
        for i in range(1, h):
            out[..., i, j] = a[..., i, j] | a[..., h - i, w - j]
    return out

def full_shape(h, m, shape):
    if shape is None: return h, 2 * m - 1
    if h is None: h = shape[0]
    elif h > shape[0]: raise ValueError("height")
    if m is None: return h, shape[1]
    w = 2 * m - 1
    if w == shape[1] + 1: w = shape[1]
    if w > shape[1]: raise ValueError("width")
    return h, w

def ref_from_rfft2_data(a, shape=None, axes=(-2, -1)):
    h, m = a.shape[-2:]
    h, w = full_shape(h, m, shape)
    out = np.empty(a.shape[:-2] + (h, w), a.dtype)
    for j in range((w + 1) // 2):
        for i in range(h):
            out[..., i, j] = a[..., i, j]
    for j in range((w + 1) // 2, w):
        out[..., 0, j] = np.conj(a[..., 0, w - j])
        for i in range(1, h):
            out[..., i, j] = np.conj(a[..., h - i, w - j])
    return out

def ref_as_fft2_shape(kisize=None, kjsize=None, shape=None):
    if shape is None:
        if kisize is None or kjsize is None: raise ValueError("shape")
    return full_shape(kisize, kjsize, shape)

def last(a): return np.transpose(a, (2, 0, 1))
def first(a): return np.transpose(a, (1, 2, 0))
def ref_data_first(a): return first(ref_as_rfft2_data(last(a)))
def ref_conj_first(a, fill): return first(ref_as_rfft2_conj(last(a), fill))
def ref_mask_first(a): return first(ref_as_rfft2_mask(last(a)))
def ref_from_first(a, shape=None): return first(ref_from_rfft2_data(last(a), shape))
