"""Streams of multi-frames: sources and consumers that mark every element they produce or take."""

def tick(what, k):
    pass

def stream(frames, name="in"):
    k = 0
    for f in frames:
        tick(name, k)
        yield f
        k = k + 1

def collect(video):
    out = []
    k = 0
    for f in video:
        tick("out", k)
        out.append(f)
        k = k + 1
    tick("end", k)
    return out
