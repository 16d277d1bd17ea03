#!/usr/bin/env python3
import os, sys, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import threading
from sa import registry

def main():
    ids = sys.argv[1:]
    rc = 0
    for i in ids:
        rc |= registry.run(i)
    sys.stdout.flush()
    os._exit(rc)

threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main)
t.start()
t.join()
os._exit(1)
