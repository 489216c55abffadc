#!/usr/bin/env python3
"""Compare the trace hashes of runs 0..N of every property: two processes one
after the other, and split over 3 and 8 processes at the same time.

usage: determinism.py [N] [SEED]    (needs the binaries of `check.sh --build`)
"""
import os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = {'r': R + '/target/release/ksim', 'd': R + '/target/debug/ksim'}
N = int(sys.argv[1]) if len(sys.argv) > 1 else 300
env = dict(os.environ, KSIM_ROOT=R, VERIF_TIER='quick', VERIF_SEED=sys.argv[2] if len(sys.argv) > 2 else '5')
def one(b,p,a,z): return subprocess.Popen([b,'hashes',p,str(a),str(z)],stdout=subprocess.PIPE,stderr=subprocess.PIPE,env=env,text=True)
def split(b,p,k):
    cuts=[N*i//k for i in range(k+1)]
    ps=[one(b,p,cuts[i],cuts[i+1]) for i in range(k)]
    o=[x.communicate() for x in ps]
    return ''.join(x[0] for x in o),[x.returncode for x in ps]
bad = 0
for p in ['C%02d' % i for i in range(1, 25)]:
    b=B['d'] if p in('C13','C16') else B['r']
    rs=[split(b,p,k) for k in (1,1,3,8)]
    ok=all(r[0]==rs[0][0] for r in rs)
    bad += not ok or any(c for r in rs for c in r[1])
    print(p,'lines',rs[0][0].count('\n'),'same' if ok else 'DIFFERENT',[r[1] for r in rs],flush=True)
sys.exit(bool(bad))
