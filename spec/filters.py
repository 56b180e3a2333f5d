"""Filters over the last axis (one dimensional inputs)."""
import numpy as np

def middle(a, b, c):
    return max(min(a, b), min(max(a, b), c))

def median(x, out=None):
    n = len(x)
    r = np.empty((n,), float)
    for i in range(n):
        r[i] = x[i] if i == 0 or i == n - 1 else middle(x[i - 1], x[i], x[i + 1])
    return result(r, out)

def result(r, out):
    if out is None:
        return r
    out[...] = r
    return out

def convolve(x, out=None):
    n = len(x)
    r = np.empty((n,), float)
    for i in range(n):
        r[i] = x[i] if i == 0 or i == n - 1 else x[i - 1] / 4 + x[i] / 2 + x[i + 1] / 4
    return result(r, out)

def decreasing(x, out=None):
    n = len(x)
    r = np.empty((n,), float)
    last = x[0]
    for i in range(n):
        if x[i] < last or np.isnan(last):
            last = x[i]
        r[i] = last
    return result(r, out)

def increasing(x, out=None):
    n = len(x)
    r = np.empty((n,), float)
    last = x[0]
    for i in range(n):
        if x[i] > last or np.isnan(last):
            last = x[i]
        r[i] = last
    return result(r, out)

def line(xi, x, y, j):
    return y[j - 1] + (xi - x[j - 1]) * (y[j] - y[j - 1]) / (x[j] - x[j - 1])

def interpolate3(xn, x, y, out=None):
    r = np.empty((len(xn),), float)
    for i in range(len(xn)):
        if xn[i] <= x[1]:
            r[i] = line(xn[i], x, y, 1)
        else:
            r[i] = line(xn[i], x, y, 2)
    return result(r, out)

def interpolate2(xn, x, y, out=None):
    r = np.empty((len(xn),), float)
    for i in range(len(xn)):
        r[i] = line(xn[i], x, y, 1)
    return result(r, out)

def parts(x, out=None):
    """both parts of complex data are filtered as real data is"""
    from cddm.avg import median as real_median
    r = real_median(x.real) + 1j * real_median(x.imag)
    return result(r, out)

def denoise(x, n=3):
    from cddm.avg import median as real_median, convolve as smooth
    for i in range(n):
        x = smooth(real_median(x))
    return x

def log_interpolate2(xn, x, y, out=None):
    r = np.empty((len(xn),), float)
    for i in range(len(xn)):
        r[i] = logline(xn[i], x, y, 1)
    return result(r, out)

def log_interpolate3(xn, x, y, out=None):
    r = np.empty((len(xn),), float)
    for i in range(len(xn)):
        if xn[i] <= x[1]:
            r[i] = logline(xn[i], x, y, 1)
        else:
            r[i] = logline(xn[i], x, y, 2)
    return result(r, out)

def logline(v, x, y, j):
    """on a logarithmic time axis, where the segment and the point allow it"""
    if v > 1 and x[j - 1] >= 1:
        return y[j - 1] + (np.log(v) - np.log(x[j - 1])) * (y[j] - y[j - 1]) / (np.log(x[j]) - np.log(x[j - 1]))
    return y[j - 1] + (v - x[j - 1]) * (y[j] - y[j - 1]) / (x[j] - x[j - 1])
