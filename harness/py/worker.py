"""Runs the programs of the C23 monitor against the real d10 module and reports what they saw.

stdin:  4 byte length, program text (UTF-8); each program runs in a namespace of its own
stdout: 4 byte length, encoded values the program appended to `out`

A program after a line "#repeat W N" runs W + N times; the memory in use after the last N + 1 is reported.
"""
import array
import builtins
import ctypes
import gc
import os
import struct
import sys

import numpy as np

import d10

CHANNELS = {"Rgb": "red green blue", "Srgb": "red green blue", "Hsl": "hue saturation lightness",
            "Hsv": "hue saturation value", "Yuv": "y u v", "Xyz": "x y z"}
for t in "D65O2 D65O10 D50O2 D50O10 EO2 EO10".split():
    CHANNELS["Lab" + t] = "l a b"
    CHANNELS["Lch" + t] = "l c h"


class Raised:
    """What a call raised"""

    def __init__(self, e):
        self.e = e


def attempt(f):
    try:
        return f()
    except BaseException as e:  # PanicException is no Exception
        return Raised(e)


def img(w, h, data):
    """An image of exactly these f32 channels"""
    v = struct.unpack("<%df" % (w * h * 4), bytes.fromhex(data))
    return d10.Image.from_list(w, h, [d10.Rgb(*v[i:i + 4]) for i in range(0, len(v), 4)])


def f64(v):
    return struct.pack("<d", v).hex()


def enc(v, o):
    t = type(v)
    if v is None:
        o.append("N")
    elif t is bool:
        o.append("B %d" % v)
    elif t is int:
        o.append("i %d" % v)
    elif t is float:
        o.append("f " + f64(v))
    elif t is str:
        o.append("s " + (v.encode("utf-8", "surrogatepass").hex() or "-"))
    elif t is bytes:
        o.append("y " + (v.hex() or "-"))
    elif t is Raised:
        e = v.e
        o.append("E %s %d %s" % (type(e).__name__, isinstance(e, Exception), str(e).encode("utf-8", "replace").hex() or "-"))
    elif t is list or t is tuple:
        o.append("L %d" % len(v))
        for x in v:
            enc(x, o)
    elif t is d10.Image:
        l = v.to_list()
        raw = b"".join(struct.pack("<4f", c.red, c.green, c.blue, c.alpha) for c in l)
        o.append("I %d %d %s" % (v.width, v.height, raw.hex() or "-"))
    elif isinstance(v, np.ndarray):
        o.append("A %s %d %s %s" % (v.dtype.name, v.ndim, " ".join(map(str, v.shape)), v.tobytes().hex() or "-"))
    elif t.__name__ in CHANNELS and t.__module__ == "builtins":
        o.append("C %s %s %s" % (t.__name__, " ".join(f64(getattr(v, n)) for n in CHANNELS[t.__name__].split()), f64(v.alpha)))
    else:
        o.append("O " + t.__name__)


class Out:
    """Collects values as they are at that moment"""

    def __init__(self):
        self.n = 0
        self.o = []

    def append(self, v):
        self.n += 1
        enc(v, self.o)

    def __iadd__(self, l):
        for v in l:
            self.append(v)
        return self


def read(n):
    b = b""
    while len(b) < n:
        d = os.read(0, n - len(b))
        if not d:
            sys.exit(0)
        b += d
    return b


class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


libc = ctypes.CDLL(None)
libc.mallinfo2.restype = Mallinfo


def levels():
    """Blocks of Python objects and bytes of the C heap in use"""
    gc.collect()
    sys._clear_type_cache()  # it keeps the names that were looked up
    n = sys.getallocatedblocks()
    m = libc.mallinfo2()
    return n, m.uordblks + m.hblkhd


def repeat(text, warm, n):
    code = compile(text, "<program>", "exec")
    seen = array.array("q", [0] * (2 * n + 2))
    at = 0
    for k in range(warm + n):
        space = {"d10": d10, "np": np, "img": img, "attempt": attempt, "Raised": Raised, "out": Out(), "__builtins__": builtins}
        try:
            exec(code, space)
        except BaseException:
            pass
        space = None
        if k >= warm - 1:
            seen[at], seen[at + 1] = levels()
            at += 2
    return seen


def main():
    reply = os.dup(1)
    os.dup2(2, 1)  # whatever else is printed does not disturb the protocol
    while True:
        text = read(struct.unpack("<I", read(4))[0]).decode()
        space = {"d10": d10, "np": np, "img": img, "attempt": attempt, "Raised": Raised, "out": Out(), "__builtins__": builtins}
        try:
            if text.startswith("#repeat "):
                head, text = text.split("\n", 1)
                space["out"] += repeat(text, *map(int, head.split()[1:]))
            else:
                exec(text, space)
            o = ["L %d" % space["out"].n] + space["out"].o
        except BaseException as e:
            o = []
            enc(Raised(e), o)
        b = " ".join(o).encode()
        b = struct.pack("<I", len(b)) + b
        while b:
            b = b[os.write(reply, b):]


main()
