#!/usr/bin/env python3
"""crepl.py FILE OLD NEW: replace one occurrence, keeping the file's line endings."""
import sys
f, old, new = sys.argv[1:4]
b = open(f, "rb").read()
crlf = b"\r\n" in b
o, n = old.encode(), new.encode()
if crlf:
    o, n = o.replace(b"\n", b"\r\n"), n.replace(b"\n", b"\r\n")
if b.count(o) != 1:
    sys.exit("found %d times" % b.count(o))
open(f, "wb").write(b.replace(o, n))
