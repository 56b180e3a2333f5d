"""Iterative correlation as a plan over the whole recording: every level is a list of frames; each chunk of a level meets
itself and, in full mode, the chunk before it; levels that are not buffered are taken whole."""
import numpy as np
from cddm.core import reshape_output, reshape_frame, thread_frame_shape

def corr(kind, rows1, rows2, t1, t2, s1, s2, n, norm, method, complex):
    """contribution of two sets of rows: (out, count[, sq], m1, m2) with delays 0..n-1 last"""

class Viewer:
    def __init__(self, single, stats, cross):
        self.log = []
        self.single, self.stats, self.cross = single, stats, cross
    def set_data(self, data, background="none", variance="none"):
        data = snap_set(data) if self.single else tuple([snap_set(d) for d in data])
        if self.stats:
            if self.cross: background, variance = tuple([np.array(x) for x in background]), tuple([np.array(x) for x in variance])
            else: background, variance = np.array(background), np.array(variance)
        self.log.append((data, background, variance))
    def plot(self):
        self.log.append("plot")

def snap_set(d):
    """contents at the time of the call"""
    return tuple([x if x is None or isinstance(x, tuple) else np.array(x) for x in d])

# ---------------------------------------------------------------- code under analysis
def levels(slow, nlevel):
    return [tuple([None if o is None else o[j] for o in slow]) for j in range(nlevel)]

def unpack(res, nlevel, stats):
    """fast data, slow data by level, number of levels, statistics"""
    if stats:
        (fast, slow), bg, var = res
    else:
        fast, slow = res
        bg, var = None, None
    return fast[:-1], levels(slow[:-1], nlevel), [None if o is None else o.shape[0] for o in slow[:-1]], (fast[-1], slow[-1]), bg, var

def unlog(log, nlevel):
    return [l if l == "plot" else ((l[0][0][:-1], levels(l[0][1][:-1], nlevel)), l[1], l[2]) for l in log]

def unlog1(log):
    return [l if l == "plot" else (l[0][:-1], l[1], l[2]) for l in log]

def lhs_multi(cross, data, t1, t2, levels_, stats, viewer, opts):
    from cddm.multitau import iccorr_multi, iacorr_multi
    v = Viewer(False, stats, cross) if viewer else None
    if cross: res = iccorr_multi(iter(data), t1, t2, stats=stats, viewer=v, viewer_interval=viewer if viewer else 1, **opts)
    else: res = iacorr_multi(iter(data), t1, stats=stats, viewer=v, viewer_interval=viewer if viewer else 1, **opts)
    return unpack(res, levels_, stats), unlog(v.log, levels_) if viewer else None

def lhs_single(cross, data, t1, t2, n, stats, viewer, opts):
    from cddm.core import iccorr, iacorr
    v = Viewer(True, stats, cross) if viewer else None
    if cross: res = iccorr(iter(data), t1, t2, n=n, stats=stats, viewer=v, viewer_interval=viewer if viewer else 1, **opts)
    else: res = iacorr(iter(data), t1, n=n, stats=stats, viewer=v, viewer_interval=viewer if viewer else 1, **opts)
    out = res[0] if stats else res
    return out[:-1], out[-1], res[1:] if stats else None, unlog1(v.log) if viewer else None

# ---------------------------------------------------------------- reference
def default_code(norm, method, cross):
    if norm is not None: return norm
    if method == "diff": return 6 if cross else 2
    return 7

def binned(rows, binning):
    if rows is None: return None
    if binning == 1: return [(rows[2 * k] + rows[2 * k + 1]) / 2 for k in range(len(rows) // 2)]
    return [rows[2 * k] for k in range(len(rows) // 2)]

def folded(c, n, complex):
    """contribution of two different chunks of one camera, with negative delays on top of the positive ones"""
    return tuple([fold1(x, n, complex, i == 0) for i, x in enumerate(c)])

def fold1(x, n, complex, conj):
    if x is None: return None
    if not complex: return x
    neg = x[..., n:][..., ::-1]
    return np.concatenate((x[..., 0:1], x[..., 1:n] + (np.conj(neg) if conj else neg)), axis=-1)

def total(parts):
    acc = parts[0]
    for p in parts[1:]:
        acc = tuple([None if x is None else x + y for x, y in zip(acc, p)])
    return acc

def sq(x): return (x * np.conj(x)).real

class Plan:
    def __init__(self, cross, data, t1, t2, level_size, norm, method, count, period, binning, nlevel, chunk, td, background, mode, mask, complex):
        self.cross, self.mode, self.complex = cross, mode, complex
        self.method = "corr" if method is None else method
        self.norm = default_code(norm, self.method, cross)
        if binning is None: binning = 0 if self.method == "diff" else 1
        self.half, self.size, self.period = chunk, level_size, period
        # whole chunks of a power of two only
        total = 1
        while chunk * total * 2 <= count: total = total * 2
        self.frames = chunk * total
        buffered = 1
        while chunk * 2 ** (buffered + 1) <= self.frames: buffered = buffered + 1
        most = 0
        while self.frames // 2 ** (most + 1) >= level_size: most = most + 1
        self.nlevel = most if nlevel is None else min(nlevel, most)
        self.buffered = min(buffered, self.nlevel + 1)
        self.mask = mask
        cams = [[d[c][mask] if mask is not None else d[c] for d in data[0:self.frames]] for c in range(2 if cross else 1)]
        self.original = cams[0][0].shape
        shape = thread_frame_shape(cams[0][0].shape, td, mask is None)
        cams = [[x.reshape(shape) for x in cam] for cam in cams]
        if background:
            bgs = [sum(cam[0:self.half]) / self.half for cam in cams]
            cams = [[x - bg for x in cam] for cam, bg in zip(cams, bgs)]
        self.cams = cams
        structured = self.norm & 2 and self.method != "diff"
        squares = [[sq(x) for x in cam] if structured else None for cam in cams]
        self.rows, self.squares = [cams], [squares]
        for j in range(self.nlevel):
            self.rows.append([binned(cam, binning) for cam in self.rows[j]])
            self.squares.append([binned(cam, binning) for cam in self.squares[j]])
        if t1 is None: t1 = np.arange(count)
        if t2 is None: t2 = t1
        self.t1, self.t2 = t1, t2

    def single(self, j, p, q):
        """rows p[0]:p[1] of the first against rows q[0]:q[1] of the second camera"""
        r, s = self.rows[j], self.squares[j]
        n = self.size * self.period if j == 0 else self.size
        c = 1 if self.cross else 0
        t1, t2 = (self.t1, self.t2) if j == 0 else (np.arange(self.frames), np.arange(self.frames))
        s1 = None if s[0] is None else s[0][p[0]:p[1]]
        s2 = None if s[c] is None else s[c][q[0]:q[1]]
        if p == q and not self.cross:
            return corr("auto", r[0][p[0]:p[1]], None, t1[p[0]:p[1]], None, s1, None, n, self.norm, self.method, self.complex)
        res = corr("cross", r[0][p[0]:p[1]], r[c][q[0]:q[1]], t1[p[0]:p[1]], t2[q[0]:q[1]], s1, s2, n, self.norm, self.method, self.complex)
        if self.cross: return res
        res = folded(res, n, self.complex)
        # one mean for both roles of the same camera
        if res[-2] is None: return res[:-1] + (None,)
        return res[:-2] + ((res[-2] + res[-1]) / 2, None)

    def parts(self, j, done):
        """contributions to level j when this many frames are processed"""
        if j >= self.buffered:
            m = len(self.rows[j][0])
            return [self.single(j, (0, m), (0, m))] if done > self.frames else []
        h = self.half
        out = []
        for c in range(done // (h * 2 ** j)):
            cur = (c * h, c * h + h)
            out.append(self.single(j, cur, cur))
            if c > 0 and self.mode == "full":
                prev = (c * h - h, c * h)
                if self.cross: out.append(self.single(j, cur, prev))
                out.append(self.single(j, prev, cur))
        return out

    def level(self, j, done):
        parts = self.parts(j, min(done, self.frames + 1 if j >= self.buffered else self.frames))
        if len(parts) == 0:
            z = self.single(j, (0, self.size), (0, self.size))
            return tuple([None if x is None else x * 0 for x in z])
        return total(parts)

    def stats(self, done):
        done = min(done, self.frames)
        bgs = [(np.zeros(cam[0].shape) + sum(cam[0:done])) / done for cam in self.cams]
        vs = [sum([sq(x) for x in cam[0:done]]) / done - sq(bg) for cam, bg in zip(self.cams, bgs)]
        bgs = [reshape_frame(b, self.original, self.mask) for b in bgs]
        vs = [reshape_frame(v, self.original, self.mask) for v in vs]
        if self.cross: return tuple(bgs), tuple(vs)
        return bgs[0], vs[0]

    def result(self, done):
        return self.level(0, done), [self.level(j, done) for j in range(1, self.nlevel + 1)]

    def final(self, stats):
        fast, slow = self.result(self.frames + 1)
        bg, var = self.stats(self.frames) if stats else (None, None)
        z = self.level(0, 0)
        return fast, slow, [None if x is None else self.nlevel for x in z], ((self.original, self.mask), (self.original, self.mask)), bg, var

    def log(self, stats, interval, single):
        out = []
        done = [self.half * (k + 1) for k in range(self.frames // self.half)] + [self.frames + 1]
        for k, d in enumerate(done):
            if k % interval == 0:
                bg, var = self.stats(d) if stats else ("none", "none")
                fast, slow = self.result(d)
                out.append((fast if single else (fast, slow), bg, var))
                out.append("plot")
        return out

def ref_multi(cross, data, t1, t2, levels_, stats, viewer, *plan):
    p = Plan(cross, data, t1, t2, *plan)
    return p.final(stats), p.log(stats, viewer, False) if viewer else None

def ref_single(cross, data, t1, t2, n, stats, viewer, *plan):
    p = Plan(cross, data, t1, t2, *plan)
    fast, slow, k, place, bg, var = p.final(stats)
    return fast, place[0], (bg, var) if stats else None, p.log(stats, viewer, True) if viewer else None

# ---------------------------------------------------------------- statistics
def add_rows(f, out1, out2):
    """sum of the rows and of their squared magnitudes"""
    for i in range(f.shape[0]):
        for j in range(f.shape[1]):
            out1[j] = out1[j] + f[i, j]
    for i in range(f.shape[0]):
        for j in range(f.shape[1]):
            out2[j] = out2[j] + (f[i, j].real * f[i, j].real + f[i, j].imag * f[i, j].imag)

def moved(f, axis): return np.moveaxis(f, axis, 0)

def mean_of(f, axis): return sum([x for x in moved(f, axis)]) / moved(f, axis).shape[0]

def var_of(f, axis):
    m = mean_of(f, axis)
    return sum([sq(x) for x in moved(f, axis)]) / moved(f, axis).shape[0] - sq(m)

def ref_stats(f1, f2=None, axis=0):
    if f2 is None: return mean_of(f1, axis), var_of(f1, axis)
    return (mean_of(f1, axis), mean_of(f2, axis)), (var_of(f1, axis), var_of(f2, axis))

def ref_subtract(data, axis=0, bg=None, return_bg=False, out=None):
    if bg is None: bg = mean_of(data, axis)
    res = np.moveaxis(moved(data, axis) - bg, 0, axis)
    if out is not None: out[...] = res
    return (res, bg) if return_bg else res

# ---------------------------------------------------------------- whole recording in memory
def lhs_memory(cross, f1, f2, t1, t2, levels_, opts):
    from cddm.multitau import ccorr_multi, acorr_multi
    if cross: res = ccorr_multi(f1, f2, t1, t2, **opts)
    else: res = acorr_multi(f1, t1, **opts)
    return unpack(res, levels_, False)[0:4]

class Whole(Plan):
    def __init__(self, cross, f1, f2, t1, t2, axis, level_size, norm, method, period, binning, nlevel, td, mask, complex):
        self.cross, self.complex = cross, complex
        self.method = "corr" if method is None else method
        self.norm = default_code(norm, self.method, cross)
        if binning is None: binning = 0 if self.method == "diff" else 1
        self.size, self.period, self.mask = level_size, period, mask
        cams = [[x if mask is None else x[mask] for x in moved(f, axis)] for f in ((f1, f2) if cross else (f1,))]
        self.frames = len(cams[0])
        most = 0
        while self.frames // 2 ** (most + 1) >= level_size: most = most + 1
        self.nlevel = most if nlevel is None else nlevel
        self.original = cams[0][0].shape
        shape = thread_frame_shape(self.original, td, mask is None)
        cams = [[x.reshape(shape) for x in cam] for cam in cams]
        structured = self.norm & 2 and self.method != "diff"
        squares = [[sq(x) for x in cam] if structured else None for cam in cams]
        self.rows, self.squares = [cams], [squares]
        for j in range(self.nlevel):
            self.rows.append([binned(cam, binning) for cam in self.rows[j]])
            self.squares.append([binned(cam, binning) for cam in self.squares[j]])
        if t1 is None: t1 = np.arange(self.frames)
        if t2 is None: t2 = t1
        self.t1, self.t2 = t1, t2

    def all(self, j):
        m = len(self.rows[j][0])
        return self.single(j, (0, m), (0, m))

def ref_memory(cross, f1, f2, t1, t2, levels_, *plan):
    p = Whole(cross, f1, f2, t1, t2, *plan)
    fast = p.all(0)
    return fast, [p.all(j) for j in range(1, p.nlevel + 1)], [None if x is None else p.nlevel for x in fast], ((p.original, p.mask), (p.original, p.mask))
