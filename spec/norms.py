"""Reference definitions of the normalization estimators (documentation: cddm user guide,
'Normalization'), in terms of the raw sums.

D  correlation (sum of conj(a)*b) or squared difference (sum of |b-a|**2), N  number of pairs,
b1, b2 backgrounds, m1, m2 sums of the signals of both cameras, S sum of |a|**2 + |b|**2,
V  mean variance.
"""
import numpy as np
from cddm.norm import normalize

INF = complex(np.inf, np.inf)

def re(x): return x.real

def standard(D, N, b1, b2):
    return D / N - np.conj(b1) * b2

def standard_subtracted(D, N, b1, b2, m1, m2):
    # sum of conj(a - b1) * (b - b2)
    return (D - np.conj(b1) * m2 - np.conj(m1) * b2) / N + np.conj(b1) * b2

def standard_compensated(D, N, m1, m2):
    return (D - np.conj(m1) * m2 / N) / N

def abs2(x): return (np.conj(x) * x).real

# structured estimators: V - (mean squared difference) / 2, for the real part of the product
def structured(D, N, b1, b2, V, S):
    return (D - S / 2) / N + abs2(b1 - b2) / 2 + V

def structured_subtracted(D, N, b1, b2, V, S, m1, m2):
    return (D - S / 2 + re(np.conj(m1 - m2) * (b1 - b2))) / N - abs2(b1 - b2) / 2 + V

def structured_compensated(D, N, V, S, m1, m2):
    return (D - S / 2 + abs2(m1 - m2) / (2 * N)) / N + V

# the imaginary part of conj(a)*b is the real part of conj(a)*(-1j*b)
def both(f, D, *args):
    """args: functions of the factor that multiplies the second camera"""
    return f(D.real, *[a(1) for a in args]) + 1j * f(D.imag, *[a(-1j) for a in args])

def keep(x): return lambda f: x
def second(x): return lambda f: f * x

def corr_estimate(kind, cplx, D, N, b1, b2, V, S, m1, m2):
    if kind == 1: r = standard(D, N, b1, b2)
    elif kind == 5 or kind == 13: r = standard_subtracted(D, N, b1, b2, m1, m2)
    elif kind == 9: r = standard_compensated(D, N, m1, m2)
    elif not cplx:
        if kind == 2: r = structured(D, N, b1, b2, V, S)
        elif kind == 6 or kind == 14: r = structured_subtracted(D, N, b1, b2, V, S, m1, m2)
        else: r = structured_compensated(D, N, V, S, m1, m2)
    else:
        if kind == 2: r = both(structured, D, keep(N), keep(b1), second(b2), keep(V), keep(S))
        elif kind == 6 or kind == 14: r = both(structured_subtracted, D, keep(N), keep(b1), second(b2), keep(V), keep(S), keep(m1), second(m2))
        else: r = both(structured_compensated, D, keep(N), keep(V), keep(S), keep(m1), second(m2))
    if cplx: return np.where(N == 0, INF, r)
    return r.real

def diff_estimate(kind, D, N, b1, b2, m1, m2):
    d = b2 - b1
    if kind == 2: return D / N - abs2(d)
    # sum of |(b - a) - (b2 - b1)|**2
    return (D - 2 * re(np.conj(d) * (m2 - m1))) / N + abs2(d)

def mean_variance(variance):
    return (variance[0] + variance[1]) / 2

def spread(count, ndim):
    """count array of c dimensions broadcast against data of ndim dimensions"""
    for i in range(ndim - count.ndim): count = count[..., None, :]
    return count

def ref_corr(data, background, variance, norm, mode, scale, cplx):
    D, N, S, m1, m2 = data
    if m2 is None: m2 = m1
    v = mean_variance(variance)[..., None]
    r = corr_estimate(norm, cplx, D, spread(N, D.ndim), background[0][..., None], background[1][..., None], v, S, m1, m2)
    if mode == "diff": r = 2 * (v - r)
    if scale: r = r / v
    return r

def ref_diff(data, background, variance, norm, mode, scale):
    D, N, m1, m2 = data
    v = mean_variance(variance)[..., None]
    r = diff_estimate(norm, D, spread(N, D.ndim), background[0][..., None], background[1][..., None], m1, m2)
    if mode == "corr": r = v - r / 2
    if scale: r = r / v
    return r

def lhs(data, background, variance, norm, mode, scale):
    return normalize(data, background, variance, norm = norm, mode = mode, scale = scale)

# ---------------------------------------------------------------- masks
def masked(x, mask):
    """selected wave vectors of data with a trailing delay axis"""
    return None if x is None else x[..., mask, :]

def ref_any(data, background, variance, norm, mode, scale, cplx, mask):
    """data restricted to the mask, normalized with the restricted background and variance"""
    if mask is not None:
        data = tuple([x if i == 1 else masked(x, mask) for i, x in enumerate(data)])
        background = background[0][mask], background[1][mask]
        v = mean_variance(variance)[mask]
        variance = v, v
    if len(data) == 4: return ref_diff(data, background, variance, norm, mode, scale)
    return ref_corr(data, background, variance, norm, mode, scale, cplx)

def lhs_any(data, background, variance, norm, mode, scale, mask):
    return normalize(data, background, variance, norm = norm, mode = mode, scale = scale, mask = mask)

def lhs_out(data, background, variance, norm, mode, scale, out):
    return normalize(data, background, variance, norm = norm, mode = mode, scale = scale, out = out)

def ref_out(data, background, variance, norm, mode, scale, out, cplx):
    out[...] = ref_any(data, background, variance, norm, mode, scale, cplx, None)
    return out

# ---------------------------------------------------------------- weighted
from cddm.norm import weight_from_data, weighted_sum

def noise(variance, mask):
    d = (variance[1] - variance[0]) / (variance[0] + variance[1])
    return d if mask is None else d[mask]

def factor(variance, mask):
    v = mean_variance(variance)
    return v if mask is None else v[mask]

def ref_weighted(data, background, variance, norm, mode, scale, cplx, mask, weight):
    family = norm & 12
    struct = ref_any(data, background, variance, family | 2, mode, scale, cplx, mask)
    standard = ref_any(data, background, variance, family | 1, mode, scale, cplx, mask)
    if weight is None:
        delta = noise(variance, mask)
        v = 1. if scale else factor(variance, mask)
        weight = weight_from_data(standard, delta, scale_factor = v, mode = mode)
        weight = weight_from_data(weighted_sum(struct, standard, weight), delta, scale_factor = v, mode = mode)
        weight = weight_from_data(weighted_sum(struct, standard, weight), delta, scale_factor = v, mode = mode)
    return weighted_sum(struct, standard, weight), weight

def lhs_weighted(data, background, variance, norm, mode, scale, mask, weight):
    return normalize(data, background, variance, norm = norm, mode = mode, scale = scale, mask = mask, weight = weight, ret_weight = True)

def lhs_weighted_plain(data, background, variance, norm, mode, scale, mask, weight):
    return normalize(data, background, variance, norm = norm, mode = mode, scale = scale, mask = mask, weight = weight)

def ref_weighted_plain(data, background, variance, norm, mode, scale, cplx, mask, weight):
    return ref_weighted(data, background, variance, norm, mode, scale, cplx, mask, weight)[0]

def lhs_weighted_out(data, background, variance, norm, mode, scale, weight, out):
    return normalize(data, background, variance, norm = norm, mode = mode, scale = scale, weight = weight, out = out)

def ref_weighted_out(data, background, variance, norm, mode, scale, cplx, weight, out):
    out[...] = ref_weighted(data, background, variance, norm, mode, scale, cplx, None, weight)[0]
    return out

def ref_weighted_sum(x, y, weight, cplx):
    if cplx: return (x.real * weight.real + (1 - weight.real) * y.real) + 1j * (x.imag * weight.imag + (1 - weight.imag) * y.imag)
    return x * weight + (1 - weight) * y

def optimal(g, delta):
    return 2 * g / (abs2(g) + 1 + delta ** 2)

import cddm.avg
def ref_weight(corr, delta, scale_factor, mode, pre_filter):
    if pre_filter: corr = cddm.avg.denoise(corr)
    g = corr / scale_factor[..., None]
    if mode == "diff": g = 1 - g / 2
    return optimal(g, delta[..., None])

def lhs_weight(corr, delta, scale_factor, mode, pre_filter):
    return weight_from_data(corr, delta, scale_factor = scale_factor, mode = mode, pre_filter = pre_filter)

def factor_one(variance, mask): return variance if mask is None else variance[mask]
def noise_one(variance, mask):
    d = np.zeros_like(variance)
    return d if mask is None else d[mask]
def noise_unscaled(variance, mask, scale):
    d = (variance[1] - variance[0]) / 2
    return d if mask is None else d[mask]
def noise_mean(corr, v, mode):
    g = corr / v[..., None]
    n = 1 - g[..., 0] if mode == "corr" else g[..., 0] / 2
    return np.clip(n, 0, 1)
