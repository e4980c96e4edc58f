#!/usr/bin/env python3-vt
"""replay.py <replay file>: rebuilds the harness natively from /repo's current tree (with sanitizers) and runs the recorded inputs."""
import os, re, subprocess, sys, tempfile, shutil
ROOT = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, ROOT + '/engine')
import build
fn = os.path.abspath(sys.argv[1])
m = re.search(r'harness (\S+) entry (\S+) shard (\d+)', open(fn).read())
w = tempfile.mkdtemp(prefix='cm_replay_')
try:
    b = build.build(w, ROOT + '/harness/' + m.group(1), sym=False, native=True)
    txt = ''.join(l for l in open(fn) if not l.startswith('#'))
    open(w + '/in', 'w').write(txt)
    p = subprocess.run([b['native'], 'h_' + m.group(2), m.group(3), w + '/in'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    print(p.stdout)
    sys.exit(1 if 'FAIL' in p.stdout or p.returncode < 0 else 0)
finally: shutil.rmtree(w, ignore_errors=True)
