#!/usr/bin/env python3
"""setup_cmd: the toolchain is present and every specification module parses."""
import glob
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def parse(f):
    r = subprocess.run(['java', '-XX:TieredStopAtLevel=1', '-cp', CP, 'tla2sany.SANY', os.path.basename(f)], cwd=os.path.join(ROOT, 'spec'),
                       capture_output=True, text=True)
    bad = r.returncode != 0 or '*** Errors' in r.stdout or 'Fatal' in r.stdout
    return f, bad, r.stdout


with ThreadPoolExecutor(8) as ex:
    res = list(ex.map(parse, sorted(glob.glob(os.path.join(ROOT, 'spec', '*.tla')))))
for f, bad, out in res:
    if bad:
        print('does not parse:', f)
        print(out[-2000:])
r = subprocess.run(['/opt/venv/bin/python', '--version'], capture_output=True, text=True)
print(r.stdout.strip(), '%d specification modules' % len(res))
sys.exit(1 if r.returncode or any(b for _, b, _ in res) else 0)
