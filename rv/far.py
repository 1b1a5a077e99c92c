"""The other interpreter of C42: serves rv.checks.c42.visit over its pipes."""
import os
import pickle
import struct
import sys


def main():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)  # whatever prints goes to stderr
    from rv.checks.c42 import visit
    while True:
        h = sys.stdin.buffer.read(4)
        if len(h) < 4:
            return
        data = pickle.dumps(visit(pickle.loads(sys.stdin.buffer.read(struct.unpack(">I", h)[0]))))
        out.write(struct.pack(">I", len(data)) + data)
        out.flush()


main()
