"""rbd export-diff stand-in: OLD NEW FROM TO STATE.

The style file chooses one of the many encodings of the same difference that
a cluster may produce.  Touched 4 MiB pieces are appended to STATE/difflog.
"""
import os
import random
import struct
import sys

old, new, frm, to, state = sys.argv[1:]
MiB4 = 4 * 1024 * 1024
style, seed = "object", 0
try:
    style, seed = open(state + "/diffstyle").read().split()
except OSError:
    pass
rng = random.Random(int(seed))
a = open(old, "rb").read()
b = open(new, "rb").read()
w = sys.stdout.buffer
w.write(b"rbd diff v1\n")


def meta(t, s):
    s = s.encode()
    w.write(t + struct.pack("<i", len(s)) + s)


meta(b"f", frm)
meta(b"t", to)
w.write(b"s" + struct.pack("<Q", len(b)))
gran = {"object": MiB4, "minimal": 512, "zero": 4096, "over": 65536,
        "split": 4096}[style]
ext = []
for off in range(0, len(b), gran if gran >= 65536 else 65536):
    g = gran if gran >= 65536 else 65536
    y = b[off:off + g]
    x = a[off:off + len(y)].ljust(len(y), b"\0")
    if x == y and not (style == "over" and rng.random() < 0.02):
        continue
    if gran >= 65536:
        ext.append((off, len(y)))
        continue
    for o in range(0, len(y), gran):
        if x[o:o + gran] != y[o:o + gran]:
            n = len(y[o:o + gran])
            if ext and ext[-1][0] + ext[-1][1] == off + o:
                ext[-1] = (ext[-1][0], ext[-1][1] + n)
            else:
                ext.append((off + o, n))
if style == "over":
    # extents may cross object boundaries
    m = []
    for o, n in ext:
        if m and m[-1][0] + m[-1][1] == o and rng.random() < 0.7:
            m[-1] = (m[-1][0], m[-1][1] + n)
        else:
            m.append((o, n))
    ext = m
if style == "split":
    m = []
    for o, n in ext:
        while n > 512 and rng.random() < 0.5:
            k = rng.randrange(1, n)
            m.append((o, k))
            o, n = o + k, n - k
        m.append((o, n))
    ext = m
touched = set()
for o, n in ext:
    d = b[o:o + n]
    if style != "object" and not d.strip(b"\0"):
        w.write(b"z" + struct.pack("<QQ", o, n))
    else:
        w.write(b"w" + struct.pack("<QQ", o, n))
        w.write(d)
    touched.update(range(o // MiB4, (o + n - 1) // MiB4 + 1))
w.write(b"e")
w.flush()
with open(state + "/difflog", "w") as f:
    f.write(" ".join(map(str, sorted(touched))))
