"""Loading of streams of multi-frames."""
import numpy as np
from cddm import video
from spec.streams import stream

def run_asarrays(frames): return video.asarrays(frames)
def run_asarrays_count(frames, count): return video.asarrays(frames, count)
def run_asarrays_stream(frames, count): return video.asarrays(stream(frames), count)
def run_asarrays_nocount(frames): return video.asarrays(stream(frames))
def run_asmemmaps(name, frames): return video.asmemmaps(name, frames)
def run_asmemmaps_count(name, frames, count): return video.asmemmaps(name, frames, count)
def run_asmemmaps_stream(name, frames, count): return video.asmemmaps(name, stream(frames), count)
def run_asmemmaps_nocount(name, frames): return video.asmemmaps(name, stream(frames))
def run_load(frames):
    v = video.load(frames)
    return [list(v), list(v)]
def run_load_stream(frames, count):
    v = video.load(stream(frames), count)
    return [list(v), list(v)]
def run_load_nocount(frames): return video.load(stream(frames))

def stack(frames, c, n):
    out = np.empty((n,) + frames[0][c].shape, frames[0][c].dtype)
    for i in range(n):
        out[i] = frames[i][c]
    return out
def ref_arrays(frames, n):
    return tuple([stack(frames, c, n) for c in range(len(frames[0]))])
def ref_asarrays(frames): return ref_arrays(frames, len(frames))
def ref_asarrays_count(frames, count): return ref_arrays(frames, count)
def ref_asmemmaps(name, frames): return ref_arrays(frames, len(frames))
def ref_asmemmaps_count(name, frames, count): return ref_arrays(frames, count)
def ref_nocount(frames): raise ValueError("count")
def ref_nocount_memmap(name, frames): raise ValueError("count")
def ref_load(frames): return [[tuple(m) for m in frames], [tuple(m) for m in frames]]
def ref_load_stream(frames, count): return [[tuple(m) for m in frames], [tuple(m) for m in frames]]
