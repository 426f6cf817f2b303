#!/usr/bin/env python3
"""Replays a recorded counterexample against the library compiled from /repo's current tree."""
import json, os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symlib import build as B
r = json.load(open(sys.argv[1])); c = r['config']
for san in ([False, True] if B.CONFIGS[c]['target'] == 'x86' else [False]):
    x = B.native(c, r['harness'], san)
    cmd = B.CONFIGS[c]['run'] + [x, r['inputs_file'] if r.get('inputs') or r['inputs_file'].startswith('seed') else '-'] + [str(p) for p in r['params']]
    print('$', ' '.join(cmd), flush=True)
    print('exit', subprocess.run(cmd, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0')).returncode, flush=True)
