"""One layer object called again and again: buffers reused by the caller, results overwritten by the caller."""
import numpy as np

from pbt.runner import need


def flipped(a, axis=0):
    return np.flip(np.asarray(a), axis)


def reuse(infer, x, want, axis=0, out_axis=None, rtol=1e-9):
    """infer maps rows of x to rows of the result. want: (lo, hi) admissible codes, or the real values."""
    out_axis = axis if out_axis is None else out_axis

    def ok(y, flip, msg):
        y = np.asarray(y)
        if isinstance(want, tuple):
            lo, hi = (flipped(w, out_axis) if flip else np.asarray(w) for w in want)
            bad = y.shape != lo.shape or bool(np.any((y < lo) | (y > hi)))
        else:
            w = flipped(want, out_axis) if flip else np.asarray(want)
            bad = y.shape != w.shape or not np.allclose(y, w, rtol=rtol, atol=1e-12)
        need(not bad, msg)

    buf = np.array(x, order="K", copy=True)
    first = np.asarray(infer(buf))
    ok(first, False, "the layer called on a buffer")
    kept, own = first.copy(), not np.shares_memory(first, buf)
    buf[...] = flipped(x, axis)
    second = np.asarray(infer(buf))
    ok(second, True, "the buffer holds other rows at the second call")
    need(not own or np.array_equal(kept, first), "a later call changes a result already returned")
    if first.flags.writeable and first.size:  # what the caller does with a result is its own business
        first[...] = first.ravel()[0]
    if second.flags.writeable and second.size:
        second[...] = second.ravel()[-1]
    ok(infer(np.array(x, copy=True)), False, "a result overwritten by the caller changes a later call")
    n = np.asarray(x).shape[axis]
    if n > 2:  # other sizes in between
        infer(np.take(np.asarray(x), [0], axis))
        ok(infer(np.array(flipped(x, axis))), True, "a call of another size changes a later call")
