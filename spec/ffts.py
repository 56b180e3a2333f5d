"""Transforms of the package and what they define."""
import numpy as np
from cddm import fft

def run_rfft2_video(x, overwrite_x): return list(fft.rfft2_video(x, overwrite_x=overwrite_x))
def run_fft2_video(x, overwrite_x): return list(fft.fft2_video(x, overwrite_x=overwrite_x))
def run_rfft2_video_extra(x, overwrite_x, extra): return list(fft.rfft2_video(x, overwrite_x=overwrite_x, extra=extra))
def run_fft2_video_extra(x, overwrite_x, extra): return list(fft.fft2_video(x, overwrite_x=overwrite_x, extra=extra))
def run_rfft2_video_default(x): return list(fft.rfft2_video(x))
def run_fft2_video_default(x): return list(fft.fft2_video(x))
def run_rfft2_video_default_extra(x, extra): return list(fft.rfft2_video(x, extra=extra))
def run_fft2_video_default_extra(x, extra): return list(fft.fft2_video(x, extra=extra))
def run_dls(x, window, kvec): return fft.dls(x, window, kvec)
def run_dls_video(x, window, kvec): return list(fft.dls_video(x, window, kvec))

def ref_rfft2_video(x, overwrite_x): return [tuple([np.fft.rfft2(f.real) for f in m]) for m in x]
def ref_fft2_video(x, overwrite_x): return [tuple([np.fft.fft2(f) for f in m]) for m in x]
def ref_rfft2_video_extra(x, overwrite_x, extra): return [tuple([np.fft.rfft2(f.real, **extra) for f in m]) for m in x]
def ref_fft2_video_extra(x, overwrite_x, extra): return [tuple([np.fft.fft2(f, **extra) for f in m]) for m in x]
def ref_rfft2_video_default(x): return [tuple([np.fft.rfft2(f.real) for f in m]) for m in x]
def ref_fft2_video_default(x): return [tuple([np.fft.fft2(f) for f in m]) for m in x]
def ref_rfft2_video_default_extra(x, extra): return [tuple([np.fft.rfft2(f.real, **extra) for f in m]) for m in x]
def ref_fft2_video_default_extra(x, extra): return [tuple([np.fft.fft2(f, **extra) for f in m]) for m in x]

def kernel(window, kvec):
    kf = np.zeros(window.shape, complex)
    kf[kvec[0], kvec[1]] = 1.
    return np.fft.fft2(window * np.fft.fft2(kf))
def ref_dls(x, window, kvec): return np.fft.ifft2(np.fft.fft2(x) * kernel(window, kvec))
def ref_dls_video(x, window, kvec): return [tuple([np.fft.ifft2(np.fft.fft2(f) * kernel(window, kvec)) for f in m]) for m in x]
