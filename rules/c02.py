"""C02: term of a pair.  For every contribution of the direct kernels (see C01) the value that is added,
rewritten in the coordinates of its frame pair (a, b), is the polynomial of the definition: conj(a)*b or its
real part, |b-a|^2, the summed camera's value, or one; auto-correlation conjugates the earlier frame."""
from .lagcommon import *

def run(ctx):
    deep = ctx.tier == "thorough"
    for fn in DIRECT:
        for c in matrix(fn, deep): decide(ctx, c, ("term",), ("term", "weight"))
    for c in counts(deep): decide(ctx, c, ("term",), ("term", "weight"))
