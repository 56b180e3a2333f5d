"""Configuration setters."""
import numba
import cddm.conf
from cddm.conf import CDDMConfig

def set_verbose(level):
    old = CDDMConfig.verbose
    CDDMConfig.verbose = max(0, int(level))
    return old

def backend(name, old):
    """configured backend after a request for `name`"""
    if name == "numpy" or name == "numpy.fft":
        return "numpy"
    if name == "scipy" or name == "scipy.fftpack":
        return "scipy" if cddm.conf.SCIPY_INSTALLED else old
    if name == "mkl_fft":
        return "mkl_fft" if cddm.conf.MKL_FFT_INSTALLED else old
    if name == "pyfftw":
        return "pyfftw" if cddm.conf.PYFFTW_INSTALLED else old
    raise ValueError("")

def set_fftlib(name):
    old = CDDMConfig.fftlib
    CDDMConfig.fftlib = backend(name, old)
    return old

def set_rfft2lib(name):
    old = CDDMConfig.rfft2lib
    CDDMConfig.rfft2lib = backend(name, old)
    return old

def set_showlib(name):
    old = CDDMConfig.showlib
    if name == "matplotlib":
        CDDMConfig.showlib = name
    elif name == "cv2":
        if cddm.conf.CV2_INSTALLED:
            CDDMConfig.showlib = name
    elif name == "pyqtgraph":
        if cddm.conf.PYQTGRAPH_INSTALLED:
            CDDMConfig.showlib = name
    else:
        raise ValueError("")
    return old

def set_fft_threads(n):
    old = CDDMConfig.fft_threads
    if int(n) < 1:
        raise ValueError("")
    CDDMConfig.fft_threads = int(n)
    return old

def set_numba_threads(n):
    old = CDDMConfig.numba_threads
    numba.set_num_threads(n)
    CDDMConfig.numba_threads = int(numba.get_num_threads())
    return old
