#!/usr/bin/env python3
import importlib, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(H, 'engine'), os.path.join(H, 'checks')]
import lib
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
lib.main(pid, tier, lambda ctx: importlib.import_module(pid.lower()).run(ctx))
