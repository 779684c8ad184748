#!/usr/bin/env python3
"""check.py <property id>: decides one property from /repo's current source."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import threading
from an import rule

if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    rc = [1]
    def go():
        rc[0] = rule.main(sys.argv[1])
    t = threading.Thread(target=go)
    t.start(); t.join()
    sys.stdout.flush()
    os._exit(rc[0])
