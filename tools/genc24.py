#!/usr/bin/env python3
"""Writes harness/c24_names.inc: macro uses with many different names."""
import os, random
r = random.Random(24)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "c24_names.inc")
names = [b"", b"a", b"b", b"ab", b"ba", b"a/b", b"/", b"count", b"main", b"foo and bar", b"123456789", b"The mutex is locked",
         "h\u00e9llo \u4e16\u754c \U0001f600".encode(), b"%s%n\\\"'?", b" ", b"  ", b"x" * 255, b"x" * 256, b"x" * 257, b"y" * 1000]
for n in (1, 2, 3, 7, 15, 16, 17, 31, 64, 200, 1000):
    names.append(bytes(r.randrange(1, 256) for _ in range(n)))
for _ in range(40):
    names.append(bytes(r.randrange(1, 256) for _ in range(r.randrange(1, 12))))
for b in range(1, 256, 2):
    names.append(bytes([b]))
names = list(dict.fromkeys(names))
def lit(n):
    return '"' + "".join("\\%03o" % c for c in n) + '"'
with open(out, "w") as f:
    f.write("// written by tools/genc24.py\n")
    for n in names:
        f.write("NAME(%s)\n" % lit(n))
