"""Frame-wise operations on streams of multi-frames."""
import numpy as np
from cddm import video, fft
from spec.streams import stream, collect

# ---- the operations of the package on a marked stream
def run_crop(frames, roi): return collect(video.crop(stream(frames), roi))
def run_crop_default(frames): return collect(video.crop(stream(frames)))
def run_mask(frames, mask): return collect(video.mask(stream(frames), mask))
def run_subtract(frames, arrays, inplace, dtype): return collect(video.subtract(stream(frames), stream(arrays, "in2"), inplace=inplace, dtype=dtype))
def run_add(frames, arrays, inplace, dtype): return collect(video.add(stream(frames), stream(arrays, "in2"), inplace=inplace, dtype=dtype))
def run_multiply(frames, arrays, inplace, dtype): return collect(video.multiply(stream(frames), stream(arrays, "in2"), inplace=inplace, dtype=dtype))
def run_normalize_video(frames, inplace, dtype): return collect(video.normalize_video(stream(frames), inplace=inplace, dtype=dtype))
def run_normalize_fft(frames, inplace, dtype): return collect(fft.normalize_fft(stream(frames), inplace=inplace, dtype=dtype))
def run_subtract_default(frames, arrays): return collect(video.subtract(stream(frames), stream(arrays, "in2")))
def run_add_default(frames, arrays): return collect(video.add(stream(frames), stream(arrays, "in2")))
def run_multiply_default(frames, arrays): return collect(video.multiply(stream(frames), stream(arrays, "in2")))
def run_normalize_video_default(frames): return collect(video.normalize_video(stream(frames)))
def run_normalize_fft_default(frames): return collect(fft.normalize_fft(stream(frames)))
def run_rfft2_video(frames, kimax, kjmax): return collect(fft.rfft2_video(stream(frames), kimax, kjmax))
def run_fft2_video(frames, kimax, kjmax): return collect(fft.fft2_video(stream(frames), kimax, kjmax))
def run_show_video(frames, id): return collect(video.show_video(stream(frames), id=id))
def run_show_fft(frames, id): return collect(video.show_fft(stream(frames), id=id))
def run_show_diff(frames): return collect(video.show_diff(stream(frames)))
def run_show_diff_normalized(frames): return collect(video.show_diff(stream(frames), normalize=True))
def run_show_diff_times(frames, dt, t1, t2): return collect(video.show_diff(stream(frames), dt=dt, t1=t1, t2=t2))
def run_play(frames, fps): return collect(video.play(stream(frames), fps=fps))
def run_fromarrays(arrays): return list(video.fromarrays(arrays))

# ---- what they define
def ref_crop(frames, roi):
    return [tuple([f[roi[0], roi[1]] for f in m]) for m in frames]
def ref_crop_default(frames):
    return [m for m in frames]
def ref_crop_pairs(frames, roi):
    return [tuple([f[slice(*roi[0]), slice(*roi[1])] for f in m]) for m in frames]
def ref_mask(frames, mask):
    return [tuple([f[mask] for f in m]) for m in frames]

def each(values, frames, inplace, dtype):
    if inplace:
        for m, v in zip(frames, values):
            for f, x in zip(m, v):
                f[...] = x
        return frames
    return values

def matched(frames, arrays):
    for m, w in zip(frames, arrays):
        if len(m) != len(w):
            raise ValueError("number of cameras")

def ref_subtract(frames, arrays, inplace=False, dtype=None):
    matched(frames, arrays)
    return each([tuple([f - w for f, w in zip(m, a)]) for m, a in zip(frames, arrays)], frames, inplace, dtype)
def ref_add(frames, arrays, inplace=False, dtype=None):
    matched(frames, arrays)
    return each([tuple([f + w for f, w in zip(m, a)]) for m, a in zip(frames, arrays)], frames, inplace, dtype)
def ref_multiply(frames, arrays, inplace=False, dtype=None):
    matched(frames, arrays)
    return each([tuple([f * w for f, w in zip(m, a)]) for m, a in zip(frames, arrays)], frames, inplace, dtype)
def ref_normalize_video(frames, inplace=False, dtype=None):
    return each([tuple([f / np.mean(f) for f in m]) for m in frames], frames, inplace, dtype)
def ref_normalize_fft(frames, inplace=False, dtype=None):
    return each([tuple([f / f[0, 0] for f in m]) for m in frames], frames, inplace, dtype)
def ref_rfft2_video(frames, kimax, kjmax):
    return [tuple([fft.rfft2_crop(np.fft.rfft2(f), kimax, kjmax) for f in m]) for m in frames]
def ref_fft2_video(frames, kimax, kjmax):
    return [tuple([fft.fft2_crop(np.fft.fft2(f), kimax, kjmax) for f in m]) for m in frames]
def ref_same(frames, *args):
    return frames
def ref_fromarrays(arrays):
    return [tuple([a[i] for a in arrays]) for i in range(3)]

# ---- streams of any length: x[k, c] is camera c of multi-frame k
def gather(v):
    out = []
    for m in v:
        out.append(tuple(m))
    return out
def long_crop(x, roi): return gather(video.crop(x, roi))
def lref_crop(x, roi): return gather([tuple([f[roi[0], roi[1]] for f in m]) for m in x])
def long_mask(x, mask): return gather(video.mask(x, mask))
def lref_mask(x, mask): return gather([tuple([f[mask] for f in m]) for m in x])
def long_subtract(x, w, inplace, dtype): return gather(video.subtract(x, w, inplace=inplace, dtype=dtype))
def lref_subtract(x, w, inplace, dtype): return gather([tuple([f - g for f, g in zip(m, a)]) for m, a in zip(x, w)])
def long_add(x, w, inplace, dtype): return gather(video.add(x, w, inplace=inplace, dtype=dtype))
def lref_add(x, w, inplace, dtype): return gather([tuple([f + g for f, g in zip(m, a)]) for m, a in zip(x, w)])
def long_multiply(x, w, inplace, dtype): return gather(video.multiply(x, w, inplace=inplace, dtype=dtype))
def lref_multiply(x, w, inplace, dtype): return gather([tuple([f * g for f, g in zip(m, a)]) for m, a in zip(x, w)])
def long_normalize_video(x, inplace, dtype): return gather(video.normalize_video(x, inplace=inplace, dtype=dtype))
def lref_normalize_video(x, inplace, dtype): return gather([tuple([f / np.mean(f) for f in m]) for m in x])
def long_normalize_fft(x, inplace, dtype): return gather(fft.normalize_fft(x, inplace=inplace, dtype=dtype))
def lref_normalize_fft(x, inplace, dtype): return gather([tuple([f / f[0, 0] for f in m]) for m in x])
def long_rfft2_video(x): return gather(fft.rfft2_video(x))
def lref_rfft2_video(x): return gather([tuple([np.fft.rfft2(f) for f in m]) for m in x])
def long_fft2_video(x): return gather(fft.fft2_video(x))
def lref_fft2_video(x): return gather([tuple([np.fft.fft2(f) for f in m]) for m in x])
def long_play(x, fps): return gather(video.play(x, fps=fps))
def lref_play(x, fps): return gather([tuple(m) for m in x])
