#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of the repository and runs checks against them.
usage: seedtest.py [--confirm] [--check] [--cases-scale f] ID...     (development aid; no check uses it)"""
import sys, os, json, subprocess, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = '/tmp/sw/%d' % os.getpid()
def sh(cmd, cwd=None, t=900, env=None):
    try: r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=env, errors='replace')
    except subprocess.TimeoutExpired as e: return 124, 'TIMEOUT'
    return r.returncode, r.stdout
def mk(name, patch=None):
    d = '%s/%s' % (W, name); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh('cd /repo && git archive HEAD | tar x -C %s' % d); R = d
    if patch:
        rc, o = sh(['git', 'apply', '--whitespace=nowarn', patch], cwd=d)
        if rc: return None, 'apply failed ' + o
    H = d + '.h'; shutil.rmtree(H, ignore_errors=True); shutil.copytree('/opt/vp/harness', H)
    for root, _, fs in os.walk(H):
        for f in fs:
            p = os.path.join(root, f)
            try: s = open(p).read()
            except UnicodeDecodeError: continue
            if '/repo' in s or '/opt/vp/harness' in s: open(p, 'w').write(s.replace('/opt/vp/harness', H).replace('/repo', R))
    ts = open('/opt/vp/test.sh').read().replace('/opt/vp/harness', H).replace('/repo', R); open(H + '/test.sh', 'w').write(ts)
    bs = open('/opt/vp/build.sh').read().replace('/opt/vp/harness', H).replace('/repo', R); open(H + '/build.sh', 'w').write(bs)
    rc, o = sh(['bash', H + '/build.sh'])
    if rc: return None, 'build failed ' + o[-1500:]
    return d, ''
def tests(d):
    out = d + '.json'; sh(['bash', d + '.h/test.sh', out]); o = json.load(open(out)); return sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(o.get('passed', [])))
def demo(i, d):
    D = W + '/demo_' + i; shutil.rmtree(D, ignore_errors=True); shutil.copytree(V + '/seeded/' + i, D)
    for f in glob.glob(D + '/*.diff') + glob.glob(D + '/meta.json'): os.unlink(f)
    r = sh(['bash', D + '/demo.sh'], cwd=d, t=300); shutil.rmtree(D, ignore_errors=True); return r
def main():
    a = sys.argv[1:]; conf = '--confirm' in a; chk = '--check' in a; ids = [x for x in a if not x.startswith('--')]; seed = '1'
    for x in a:
        if x.startswith('--seed='): seed = x[7:]
    if not conf and not chk: conf = chk = True
    if not ids: ids = sorted(os.path.basename(p) for p in glob.glob(V + '/seeded/*') if os.path.isdir(p))
    if conf:
        base, e = mk('base'); assert base, e
    for i in ids:
        p = V + '/seeded/%s/patch.diff' % i; m = json.load(open(V + '/seeded/%s/meta.json' % i))
        d, e = mk(i, p)
        if not d: print(i, 'BAD', e); continue
        if conf:
            miss = tests(d); r0, o0 = demo(i, base); r1, o1 = demo(i, d)
            ok = not miss and r0 == 0 and r1 not in (0, 124)
            print(i, m['property'], 'CONFIRMED' if ok else 'BAD', 'missing', miss, 'demo', r0, r1, '' if ok else '\n--base:' + o0[-600:] + '\n--patched:' + o1[-600:], '|', o1.strip().split('\n')[-1][:150])
        if chk:
            for P in ([m['property']] + [x[2:] for x in a if x.startswith('--also=')]):
                env = dict(os.environ); env['VERIF_REPO'] = d
                r, o = sh([sys.executable, V + '/tools/run.py', P, '--seed', seed], env=env, t=1800)
                v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
                print(i, P, {0: 'MISSED', 1: 'CAUGHT'}.get(r, 'NOVERDICT %d' % r), (v[0] if v else o[-300:])[:250])
        sys.stdout.flush(); shutil.rmtree(d, ignore_errors=True); shutil.rmtree(d + '.h', ignore_errors=True)
main(); shutil.rmtree(W, ignore_errors=True)
