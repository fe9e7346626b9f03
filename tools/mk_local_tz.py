"""Writes harness/local.tz: the local time zone of every check. +5:30, +6:30 from 2004 on, +3:30 from 2017 on."""
import os, struct

T = [(1100000000, 1), (1500000000, 2)]
O = [19800, 23400, 12600]
names = b"XYZ\0"


def block(v, fmt):
    h = b"TZif" + v + b"\0" * 15 + struct.pack(">6l", 0, 0, 0, len(T), len(O), len(names))
    h += b"".join(struct.pack(fmt, t) for t, _ in T) + bytes(i for _, i in T)
    return h + b"".join(struct.pack(">lbB", o, 0, 0) for o in O) + names


path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "local.tz")
with open(path, "wb") as f:
    f.write(block(b"2", ">l") + block(b"2", ">q") + b"\n\n")
