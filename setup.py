#!/usr/bin/env python3
"""Builds the runner in its variants from /repo's working tree and parses every TLA+ module."""
import glob
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
import run  # noqa: E402
import tlc  # noqa: E402

for v in ('x86', 'scalar', 'sse', 'sched', 'odd', 'count', 'asan', 'debug', 'debugscalar'):
    print(run.build(v))
mods = sorted(glob.glob(os.path.join(ROOT, 'spec', '*.tla')))
for m in mods:
    p = subprocess.run(['java', '-cp', tlc.CP, 'tla2sany.SANY', os.path.basename(m)], cwd=tlc.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or 'rror' in p.stdout.replace('Semantic errors:\n\n***', ''):
        print(p.stdout)
        sys.exit(1)
print(len(mods), 'modules parsed')
