"""C03: accumulation.  On every path of the direct, FFT and counting functions each store into the output has
the form out[p] += value; the kernel's previous content is the caller's array (same axes) when one is supplied
and zeros otherwise, and the caller's array is what is returned.  The data tuples of earlier calls of acorr and
ccorr are threaded entry by entry into the matching computation."""
from .lagcommon import *
from . import rawdata

def run(ctx):
    deep = ctx.tier == "thorough"
    for fn in DIRECT + FFT:
        for c in matrix(fn, deep):
            if c.aout or deep or (c.ndim == 1) or (c.n and c.ndim == 3 and not c.inverted): decide(ctx, c, ("accumulate",), ("accumulate",))
    for c in counts(deep): decide(ctx, c, ("accumulate",), ("accumulate",))
    for c in rawdata.matrix(deep, aout=True): rawdata.decide(ctx, c, ("accumulate",), ("accumulate",))
