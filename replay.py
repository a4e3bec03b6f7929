#!/usr/bin/env python3
"""Reproduce a recorded counterexample natively: replay.py evidence/replay/<file>.json"""
import sys, json, os, subprocess
sys.argv, args = sys.argv[:1], sys.argv[1:]
import run
v = json.load(open(args[0])); u = [x for t in ('quick', 'thorough') for x in (setattr(run, 'TIER', t), run.parse_units(v['property']))[1] if x['name'] == v['unit']][0]
w = run.V + '/build/work/replay'; os.makedirs(w, exist_ok=True); u['nat'] = w + '/native'
c = ['g++'] + run.STD + ['-O1', '-g1', '-fsanitize=address', '-DVERIF_NATIVE'] + u['flags'] + u['nativeflags'] + run.incs(u, False) + [u['file'], run.V + '/rt/native.cpp', '-o', u['nat']] + u['libs']
subprocess.check_call(c); res, out, rc = run.run_native(u, v, w); print(out); print(res, rc)
