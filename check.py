"""usage: python3-vt check.py <PROPERTY> [quick|thorough]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import threading
from qsa import frame

if __name__ == '__main__':
    out = []
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=lambda: out.append(frame.main(sys.argv[1:])))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 3)
