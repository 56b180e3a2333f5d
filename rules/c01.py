"""C01: pair sums of the direct kernels.  Every public direct function (correlation, difference, per-delay
sum, occurrence count) is analysed for each combination of dimensionality, axis, time stamps, complexity,
alignment, supplied output and full length; the accumulating statements of the compiled kernel it reaches
are turned into polyhedral regions of (frame, frame) and compared with the definition by Fourier-Motzkin
elimination: no pair outside, none missing, none twice, each at its own delay; recurrences of the regular
sums are compared by signed multiplicities."""
from .lagcommon import *

def run(ctx):
    deep = ctx.tier == "thorough"
    for fn in DIRECT:
        for c in matrix(fn, deep): decide(ctx, c, ("pairs", "term"), ("pairs", "weight"))
    for c in counts(deep): decide(ctx, c, ("pairs", "term"), ("pairs", "weight"))
