"""Reshaping of frames for threads, masks, and the way back."""
import numpy as np

def ref_thread_frame_shape(shape, thread_divisor=None, force_2d=False):
    if thread_divisor is None:
        return (1, shape[0]) if force_2d and len(shape) == 1 else shape
    size = 1
    for n in shape: size = size * n
    rows = size // int(thread_divisor)
    if rows * thread_divisor != size: raise ValueError("thread_divisor")
    return thread_divisor, rows

def ref_reshape_input(f, axis=0, thread_divisor=None, mask=None):
    if axis < 0: axis = f.ndim + axis
    if axis < 0 or axis >= f.ndim: raise IndexError("axis")
    if mask is not None and axis != 0: raise ValueError("mask")
    if mask is not None: f = f[:, mask]
    frame = f.shape[:axis] + f.shape[axis + 1:]
    s = ref_thread_frame_shape(frame, thread_divisor, mask is None)
    n = f.shape[axis]
    if axis == 0: return f.reshape((n,) + tuple(s)), frame
    x = np.moveaxis(f, axis, -1).reshape(tuple(s) + (n,))
    return np.moveaxis(x, -1, min(axis, len(s))), frame

def back(x, lead, shape, mask):
    """frame axes of one array between the leading axes and the delays"""
    if x is None: return None
    x = x.reshape(lead + shape + (x.shape[-1],))
    if mask is None: return x
    out = np.full(lead + mask.shape + (x.shape[-1],), np.nan, x.dtype)
    out[..., mask, :] = x
    return out

def out1(data, shape, mask): return data_back(data, data[0].shape[:-2], tuple(shape), mask)
def out2(data, shape, mask): return data_back(data, data[0].shape[:-3], tuple(shape), mask)
def out3(data, shape, mask): return data_back(data, data[0].shape[:-4], tuple(shape), mask)

def data_back(data, lead, shape, mask):
    return tuple([data[k] if k == 1 else back(data[k], lead, shape, mask) for k in range(len(data))])

def arr1(data, shape, mask): return back(data, data.shape[:-2], tuple(shape), mask)
def arr2(data, shape, mask): return back(data, data.shape[:-3], tuple(shape), mask)
def arr3(data, shape, mask): return back(data, data.shape[:-4], tuple(shape), mask)

def ref_reshape_frame(frame, shape, mask=None):
    x = frame.reshape(shape)
    if mask is None: return x
    out = np.full(mask.shape, np.nan, x.dtype)
    out[mask] = x
    return out

def ref_take_data(data, mask):
    return tuple([data[k] if k == 1 or data[k] is None else data[k][..., mask, :] for k in range(len(data))])

def ref_get_frames(d, cross=False, mask=None):
    one, two = (d[0], d[1]) if cross else (d[0] if isinstance(d, tuple) and len(d) == 1 else d, None)
    if mask is None: return one, two
    return one[mask], None if two is None else two[mask]
