"""Complex cross-correlation data: delay i is stored at i, delay -i at 2n-1-i."""
import numpy as np

def ref_fold_data(data, mode=0):
    if not np.iscomplexobj(data): raise ValueError("real")
    if mode not in (-1, 0, 1): raise ValueError("mode")
    m = data.shape[-1]
    n = (m + 1) // 2
    out = np.empty(data.shape[:-1] + (n,), data.dtype)
    out[..., 0] = data[..., 0]
    for i in range(1, n):
        if mode == 1: out[..., i] = data[..., i]
        elif mode == -1: out[..., i] = data[..., m - i]
        else: out[..., i] = (data[..., i] + np.conj(data[..., m - i])) / 2
    return out

def angle(x): return np.arctan2(x.imag, x.real)

def ref_shift_data(data):
    if not np.iscomplexobj(data): raise ValueError("real")
    m = data.shape[-1]
    n = (m + 1) // 2
    out = np.empty(data.shape, data.dtype)
    out[..., 0] = np.abs(data[..., 0])
    for i in range(1, n):
        a, b = data[..., i], np.conj(data[..., m - i])
        e = np.exp(1j * (angle(a) - angle(b)) / 2)
        out[..., i] = np.abs(a) * e
    for i in range(1, n):
        a, b = data[..., i], np.conj(data[..., m - i])
        e = np.exp(1j * (angle(a) - angle(b)) / 2)
        out[..., m - i] = np.abs(b) * np.conj(e)
    return out

def ref_equalize_data(data):
    if not np.iscomplexobj(data): raise ValueError("real")
    m = data.shape[-1]
    n = (m + 1) // 2
    out = np.empty(data.shape, data.dtype)
    out[..., 0] = np.abs(data[..., 0])
    for i in range(1, n):
        out[..., i] = np.sqrt(data[..., i] * np.conj(data[..., m - i]))
    for i in range(1, n):
        out[..., m - i] = np.conj(np.sqrt(data[..., i] * np.conj(data[..., m - i])))
    return out
