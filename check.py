#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decides one property for /repo's working tree; check.py --setup builds everything."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
sys.setrecursionlimit(20000)
import vf


def setup():
    vf.session_driver(vf.RULES)
    vf.session_driver(vf.NORULES)
    vf.msan_driver(vf.RULES)
    vf.msan_driver(vf.NORULES)
    import api
    api.exe()
    print('setup complete')


if __name__ == '__main__':
    if sys.argv[1] == '--setup':
        vf.main(setup)
    else:
        m = importlib.import_module(sys.argv[1].lower())
        vf.main(m.run)
