#!/usr/bin/env python3
"""check.py ID...: decide the properties from the current source of /repo (see DESIGN.md)."""
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.core import main  # noqa: E402

if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def go():
        rc[0] = main(sys.argv)

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0])
