#!/usr/bin/env python3
"""check.py <property id>: decide one property (tier and seed from VERIF_TIER / VERIF_SEED)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks.registry import REGISTRY
from lib import common
pid = sys.argv[1]
mod, fn, kw = REGISTRY[pid]
common.main(pid, getattr(importlib.import_module('checks.' + mod), fn), **kw)
