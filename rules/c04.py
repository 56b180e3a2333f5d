"""C04: FFT functions define the same sums.  conj(fft U)*fft V is expanded into the products of the entries
of the two zero-padded buffers; the position difference modulo the transform length is compared with the
output position; regions of wrapped pairs must be empty, the remaining pairs must be those of the definition
(no pair missing, none twice, own delay, same operand conjugated), for all time stamps and lengths."""
from .lagcommon import *

def run(ctx):
    deep = ctx.tier == "thorough"
    for fn in FFT:
        for c in matrix(fn, deep): decide(ctx, c, ("pairs", "term"), ("pairs", "term", "weight"))
