#!/usr/bin/env python3
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512 * 1024 * 1024)


def go(pid, res):
    m = importlib.import_module('checks.' + pid)
    from engine import check
    res.append(check.main(pid, m.run, m.RULE, m.ASSUME, getattr(m, 'LEVEL', 'other')))


if __name__ == '__main__':
    res = []
    t = threading.Thread(target=go, args=(sys.argv[1], res))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 2)
