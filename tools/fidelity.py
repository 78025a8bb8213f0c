#!/usr/bin/env python3
"""fidelity.py [N] [SEED]: simulator P against the native compiler, both built from /repo's tree: same
output files, standard output, messages and exit status for N workloads without faults."""
import os, random, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pctx import *

n = int(sys.argv[1]) if len(sys.argv) > 1 else 300
rng = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
ctx = PCtx()
same = bad = skipped = 0
while same + bad < n:
    w = wl_multi(rng) if rng.random() < .2 else wl_any(rng)
    mode = rng.choice(['multi-c', 'multi-S', 'multi-E'] if w.name == 'multi' else MODES1)
    args = w.mode_args(mode)
    if any('/w' in a for a in args) or any(b'/w/' in (b if isinstance(b, bytes) else b[0]) for b in w.files.values()) or uses_clock(w.files):
        skipped += 1
        continue
    p = w.plan(args)
    r = ctx.run(p)
    d = tempfile.mkdtemp(prefix='fid.')
    for f, b in w.files.items():
        f = d + f
        os.makedirs(os.path.dirname(f), exist_ok=True)
        open(f, 'wb').write(b if isinstance(b, bytes) else b[0])
    q = subprocess.run([os.path.join(ctx.dir, 'lacc')] + args, cwd=d + '/w', stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    nd = r.nodes[0]
    out = {}
    for root, _, fs in os.walk(d + '/w'):
        for f in fs:
            f = os.path.join(root, f)
            if f[len(d):] not in w.files:
                out[f[len(d):]] = open(f, 'rb').read()
    shutil.rmtree(d)
    err = []
    if nd.code != q.returncode:
        err.append('status %s native %s' % (nd.code, q.returncode))
    if nd.stdout != q.stdout:
        err.append('stdout')
    if nd.stderr != q.stderr:
        err.append('stderr %r native %r' % (nd.stderr[:200], q.stderr[:200]))
    mine = {f: b for f, b in r.files.items() if f not in w.files} if isinstance(r.files, dict) else None
    if mine is not None and mine != out:
        err.append('files %s native %s' % ({k: len(v) for k, v in mine.items()}, {k: len(v) for k, v in out.items()}))
    if err:
        bad += 1
        print(w.name, ' '.join(args), err)
    else:
        same += 1
print('same', same, 'different', bad, 'skipped', skipped)
ctx.close()
sys.exit(bad != 0)
