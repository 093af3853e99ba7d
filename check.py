#!/usr/bin/env python3
import importlib
import os
import sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(D, 'lib'), os.path.join(D, 'checks')]
sys.dont_write_bytecode = True
import drv


def make(pid, tier):
    return importlib.import_module(pid.lower()).make(tier)


if sys.argv[1:2] == ['setup']:
    drv.build_rsym()
    drv.build_gen()
    sys.exit(0)
sys.exit(drv.main(make, sys.argv))
