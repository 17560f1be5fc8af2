"""Reference semantics of the helpers."""
import numpy as np


def stride_trick(a, stride_length, stride_step):
    n = (len(a) - stride_length) // stride_step + 1
    out = np.zeros((n, stride_length))
    for k in range(n):
        for j in range(stride_length):
            out[k, j] = a[k * stride_step + j]
    return out
