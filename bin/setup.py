#!/usr/bin/env python3
"""Checks that the tools are there and that every specification parses."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from concurrent.futures import ThreadPoolExecutor


def sany(f):
    p = subprocess.run(['java', '-cp', vlib.JAR, 'tla2sany.SANY', os.path.basename(f)], cwd=vlib.SPEC, capture_output=True, text=True)
    bad = p.returncode != 0 or 'Semantic errors' in p.stdout or 'Parse Error' in p.stdout or '*** Errors' in p.stdout
    return f, bad, p.stdout[-1500:]


fs = sorted(glob.glob(os.path.join(vlib.SPEC, '*.tla')))
rc = 0
with ThreadPoolExecutor(6) as ex:
    for f, bad, out in ex.map(sany, fs):
        if bad:
            rc = 1
            print('does not parse:', f, out)
print(f'{len(fs)} specifications parsed, rc={rc}')
os.makedirs(vlib.BUILD, exist_ok=True)
sys.exit(rc)
