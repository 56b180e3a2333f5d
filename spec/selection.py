"""Wave vectors of the Fourier planes, sectors and averages over them."""
import numpy as np

def signed(n):
    """wave numbers of an axis with both signs, in storage order"""
    r = np.empty((n,), float)
    for i in range(n):
        r[i] = i if 2 * i < n else i - n
    return r

def scales(shape):
    """wave vectors in units of the smaller of the two steps"""
    if shape is None: return 1., 1.
    h, w = shape
    if h > w: return 1., h / w
    return w / h, 1.

def need(shape):
    if shape is None: raise ValueError("shape")
    return shape

def ref_fft2_grid(kisize=None, kjsize=None, shape=None):
    if kjsize is None: kjsize = need(shape)[1]
    if kisize is None: kisize = need(shape)[0]
    si, sj = scales(shape)
    return np.meshgrid(signed(kisize) * si, signed(kjsize) * sj, indexing="ij")

def ref_rfft2_grid(kisize=None, kjsize=None, shape=None):
    if kjsize is None: kjsize = need(shape)[1] // 2 + 1
    if kisize is None: kisize = need(shape)[0]
    si, sj = scales(shape)
    return np.meshgrid(signed(kisize) * si, np.arange(kjsize) * sj, indexing="ij")

def polar(ij):
    ki, kj = ij
    return np.sqrt(ki * ki + kj * kj), np.arctan2(-ki, kj)

def ref_fft2_kangle(kisize=None, kjsize=None, shape=None):
    return polar(ref_fft2_grid(kisize, kjsize, shape))

def ref_rfft2_kangle(kisize=None, kjsize=None, shape=None):
    return polar(ref_rfft2_grid(kisize, kjsize, shape))

def ref_fft2_sector_indexmap(kmap, anglemap, angle=0., sector=30., kstep=1.):
    """number of the ring, in steps, of the wave vectors inside the sector around the angle; the rest is -1, the origin 0"""
    if not (-180 <= angle <= 180): raise ValueError("angle")
    if not (0 < sector <= 180): raise ValueError("sector")
    inside = in_sector(anglemap, angle, sector)
    out = np.full(kmap.shape, -1, int)
    rings = np.arange(0, kmap.max() + kstep, kstep)
    for n in range(len(rings)):
        k = rings[n]
        ring = inside & (k - kstep / 2 < kmap) & (kmap <= k + kstep / 2)
        out[ring] = n
    out[0, 0] = 0
    return out

def use_index(k, anglemap, angle, sector, kstep):
    """admissible arguments: magnitudes are not negative, steps positive"""
    from cddm.map import fft2_sector_indexmap
    if kstep <= 0: raise ValueError("kstep")
    return fft2_sector_indexmap(np.abs(k), anglemap, angle, sector, kstep)

def ref_use_index(k, anglemap, angle, sector, kstep):
    if kstep <= 0: raise ValueError("kstep")
    return ref_fft2_sector_indexmap(np.abs(k), anglemap, angle, sector, kstep)

def use_default(k, anglemap):
    from cddm.map import fft2_sector_indexmap
    return fft2_sector_indexmap(np.abs(k), anglemap)

def ref_use_default(k, anglemap):
    return ref_fft2_sector_indexmap(np.abs(k), anglemap)

def in_sector(a, angle, sector):
    left = (angle + sector / 2) * np.pi / 180
    right = (angle - sector / 2) * np.pi / 180
    if angle + sector / 2 > 180:
        return (a > right) | (a <= left % (-np.pi))
    if angle - sector / 2 < -180:
        return (a > right % np.pi) | (a <= left)
    return (a >= right) & (a < left)

def ref_k_select(data, angle, sector=5, kstep=1, k=None, shape=None, mask=None, mode="rfft2"):
    from cddm.map import as_fft2_shape, fft2_kangle, fft2_sector_indexmap
    if not sector > 0: raise AssertionError("sector")
    if mode != "rfft2" and mode != "fft2": raise ValueError("mode")
    size = mask.shape if mask is not None else data.shape[-3:-1]
    flat = mask is not None and data.shape[-3:-1] != mask.shape
    if mode == "rfft2": size = as_fft2_shape(size[0], size[1], shape)
    kmap, anglemap = fft2_kangle(size[0], size[1], shape)
    index = fft2_sector_indexmap(kmap, anglemap, angle, sector, kstep)
    average = half if mode == "rfft2" else full
    return average, kmap, index, flat

def one(data, k, index, kmap, mask, flat, mode):
    """(mean wave number, mean data) of one ring, None for an empty ring"""
    return full(data, k, index, kmap, mask, flat) if mode == "fft2" else half(data, k, index, kmap, mask, flat)

def full(data, k, index, kmap, mask, flat):
    sel = index == int(round(k))
    if mask is not None: sel = sel & mask
    ks = kmap[sel]
    if len(ks) == 0: return None
    return ks.mean(), np.nanmean(data[..., sel[mask] if flat else sel, :], axis=-2)

def half(data, k, index, kmap, mask, flat):
    """the half plane holds a wave vector or the conjugate of its negative"""
    from cddm.map import as_rfft2_conj, as_rfft2_mask, from_rfft2_data
    sel = index == int(round(k))
    if mask is not None: sel = sel & from_rfft2_data(mask, sel.shape)
    ks = kmap[sel]
    if len(ks) == 0: return None
    neg = as_rfft2_conj(sel)
    sel = as_rfft2_mask(sel)
    if mask is not None:
        sel = sel & mask
        neg = neg & mask
    if flat:
        sel = sel[mask]
        neg = neg[mask]
    x = data[..., sel, :]
    neg = neg[sel]
    x[..., neg, :] = np.conj(x[..., neg, :])
    return ks.mean(), np.nanmean(x, axis=-2)

def ref_single(data, angle, sector, kstep, k, shape, mask, mode):
    average, kmap, index, flat = ref_k_select(data, angle, sector, kstep, k, shape, mask, mode)
    return average(data, k, index, kmap, mask, flat)

def ref_list(data, angle, sector, kstep, k, shape, mask, mode):
    average, kmap, index, flat = ref_k_select(data, angle, sector, kstep, k, shape, mask, mode)
    r = ()
    for q in k:
        a = average(data, q, index, kmap, mask, flat)
        if a is not None: r = r + (a,)
    return r

def ref_all(data, angle, sector, kstep, k, shape, mask, mode):
    average, kmap, index, flat = ref_k_select(data, angle, sector, kstep, k, shape, mask, mode)
    return tuple(a for a in [average(data, q, index, kmap, mask, flat) for q in np.arange(index.max() + 1)] if a is not None)

def ref_array(data, angle, sector, kstep, k, shape, mask, mode):
    average, kmap, index, flat = ref_k_select(data, angle, sector, kstep, k, shape, mask, mode)
    return tuple(a for a in [average(data, q, index, kmap, mask, flat) for q in k] if a is not None)

def ref_default(data, angle, sector=5, kstep=1, k=None, shape=None, mask=None, mode="rfft2"):
    return ref_all(data, angle, sector, kstep, k, shape, mask, mode)

def ref_fft2_k_indexmap(kisize, kjsize, angle=0, sector=5, kstep=1., shape=None, mode="rfft2"):
    from cddm.map import as_fft2_shape, fft2_kangle, fft2_sector_indexmap
    if mode == "rfft2":
        kisize, kjsize = as_fft2_shape(kisize, kjsize, shape)
    k, a = fft2_kangle(kisize, kjsize, shape)
    return fft2_sector_indexmap(k, a, angle, sector, kstep)

def ref_single_default(data, angle, sector=5, kstep=1, k=None, shape=None, mask=None, mode="rfft2"):
    return ref_single(data, angle, sector, kstep, k, shape, mask, mode)
