"""Floats as order preserving 32-bit integers (NaN: 2147483647)."""
import math, struct
NAN = 2147483647


def ord_of(x):
    if math.isnan(x):
        return NAN
    b = struct.unpack('<i', struct.pack('<f', x))[0]
    return b if b >= 0 else -(b & 0x7fffffff)


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]
