"""C14: every chunk meets itself and, in full mode, its predecessor, with the frames, squares and times of the same chunk and
camera, at every level; the running result is the sum of these contributions."""
from cddmlint.harness import *
from .multicommon import *

def run(ctx):
    for cross in (True, False):
        c = "cross" if cross else "auto"
        multi(ctx, c, cross, 8, 2, 2, 2)
        multi(ctx, c + ".chunk", cross, 8, 2, 2, 2, mode="chunk")
        multi(ctx, c + ".n16", cross, 16, 2, 2, 3)
        multi(ctx, c + ".chunk4", cross, 16, 4, 2, 3)
        multi(ctx, c + ".times", cross, 8, 2, 2, 2, t=True)
        multi(ctx, c + ".period", cross, 8, 4, 2, 2, period=3)
        multi(ctx, c + ".nlevel", cross, 16, 4, 2, 1, nlevel=1)
        multi(ctx, c + ".nlevel0", cross, 16, 4, 2, 0, nlevel=0)
        multi(ctx, c + ".nlevel9", cross, 16, 4, 2, 3, nlevel=9)
        multi(ctx, c + ".small", cross, 4, 4, 2, 1)
        multi(ctx, c + ".crop", cross, 11, 2, 2, 2)
        multi(ctx, c + ".first", cross, 8, 2, 2, 2, binning=0)
        multi(ctx, c + ".mean", cross, 8, 2, 2, 2, binning=1)
        multi(ctx, c + ".diff", cross, 8, 2, 2, 2, method="diff")
        multi(ctx, c + ".fft", cross, 8, 2, 2, 2, method="fft")
        multi(ctx, c + ".complex", cross, 8, 2, 2, 2, complex=True)
        for nm in (1, 2, 5, 6, 7): multi(ctx, c + ".norm%d" % nm, cross, 8, 2, 2, 2, norm=nm)
        multi(ctx, c + ".stats", cross, 8, 2, 2, 2, stats=True)
        multi(ctx, c + ".viewer", cross, 8, 2, 2, 2, stats=True, viewer=1)
        multi(ctx, c + ".viewer.nostats", cross, 8, 2, 2, 2, viewer=2)
        multi(ctx, c + ".background", cross, 8, 2, 2, 2, background=True)
        multi(ctx, c + ".mask", cross, 8, 2, 2, 2, mask=arr("mask", "bool", ("h", "w")))
        multi(ctx, c + ".td", cross, 8, 2, 2, 2, td=2, fs=(6, 4))
        multi(ctx, c + ".single", cross, 8, 2, 2, 0, single=True)
        multi(ctx, c + ".single.all", cross, 8, 2, 2, 0, single=True, stats=True, viewer=1, t=True, complex=True)
