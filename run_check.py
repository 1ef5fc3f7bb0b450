#!/usr/bin/env python3
import os
import sys
import threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import run
if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(run.main(sys.argv)))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
