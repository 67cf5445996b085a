#!/usr/bin/env python3
"""setup_cmd: verify the tools the checks need and compile every driver once (the checks compile what they need themselves)."""
import glob, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from lib.common import *
for s in sorted(glob.glob(ROOT + '/harness/drv_*.cpp')):
    build(os.path.basename(s)[:-4])
for np in (2, 4):
    print('mpirun -np %d:' % np, 'works' if mpi_works(np) else 'DOES NOT WORK')
cleanup()
