"""Window functions on the normalized elliptic radius."""
import numpy as np

def radius(shape):
    h, w = shape
    y = np.arange(h) - (h - 1) / 2
    x = np.arange(w) - (w - 1) / 2
    return (((y / (h / 2)) ** 2)[:, None] + ((x / (w / 2)) ** 2)[None, :]) ** 0.5

def result(value, out):
    if out is None:
        return value
    out[...] = value
    return out

def blackman(shape, out=None):
    r = radius(shape)
    w = 0.42 + 0.5 * np.cos(np.pi * r) + 0.08 * np.cos(2 * np.pi * r)
    return result(np.where(r < 1, w, 0), out)

def gaussian(shape, sigma, out=None):
    if sigma <= 0:
        raise ValueError("")
    r = radius(shape)
    return result(np.exp(-(r / sigma) ** 2 / 2), out)

def tukey(shape, alpha, out=None):
    if alpha < 0 or alpha > 1:
        raise ValueError("")
    r = radius(shape)
    if alpha > 0:
        edge = (1 - np.cos(np.pi * (r - 1) / alpha)) / 2
        w = np.where(r > 1 - alpha, edge, 1)
    else:
        w = 1
    return result(np.where(r < 1, w, 0), out)

def hann(shape, out=None):
    return tukey(shape, 1.0, out)
