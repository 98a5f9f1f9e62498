"""rbd export-diff stand-in playing the stream described in STATE/stream.json.

OLD NEW FROM TO STATE.  Also imported by the harness for the same encoding.
"""
import json
import struct
import sys


def piece(v, k, n):
    """the bytes of value v in piece k"""
    if v == 0:
        return bytes(n)
    pat = bytes((v * 37 + k * 11 + j * (2 * v + 1) + (j >> 4) * 7) % 251 + 1 for j in range(256))
    return (pat * (n // 256 + 1))[:n]


def image(vals, cuts):
    return b"".join(piece(v, k, cuts[k + 1] - cuts[k]) for k, v in enumerate(vals))


def encode(st, cuts, frm, to):
    """[bytes of each token]"""
    out = []
    for t in st:
        r = t["r"]
        if r == "hdr":
            out.append(b"rbd diff v1\n")
        elif r in "ft":
            own, other = (frm, to) if r == "f" else (to, frm)
            n = {"A": frm, "B": to}.get(t["name"]) or [own[:-1], own + "x", other, "C", "", own.upper(), own[1:]][t.get("alt", 3)]
            n = n.encode()
            out.append(r.encode() + struct.pack("<i", len(n)) + n)
        elif r == "s":
            out.append(b"s" + struct.pack("<Q", cuts[t["n"]]))
        elif r in "wz":
            a, b = cuts[t["a"]], cuts[t["b"]]
            d = r.encode() + struct.pack("<QQ", a, b - a)
            if r == "w":
                d += b"".join(piece(v, t["a"] + j, cuts[t["a"] + j + 1] - cuts[t["a"] + j]) for j, v in enumerate(t["v"]))
            out.append(d)
        elif r == "e":
            out.append(b"e")
        else:
            out.append(bytes.fromhex(t["hex"]))
    return out


if __name__ == "__main__":
    old, new, frm, to, state = sys.argv[1:]
    s = json.load(open(state + "/stream.json"))
    data = b"".join(encode(s["st"], s["cuts"], frm, to))
    if s["keep"] is not None:
        data = data[:int(len(data) * s["keep"])]
    sys.stdout.buffer.write(data)
    sys.stdout.buffer.flush()
    sys.exit(s["rc"])
