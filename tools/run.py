#!/usr/bin/env python3
"""Builds, runs and judges one check.  usage: run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE]
Exit status: 0 held on everything explored, 1 violated (VIOLATION lines), 2 no verdict (build or harness failure)."""
import sys, os, json, hashlib, subprocess, time, glob, shutil, re, fnmatch, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'tools'))
import checks as CK
NPROC = min(8, os.cpu_count() or 1)
BUILD = os.path.join(V, '.build')

def die(msg):
    print('ERROR: ' + msg); sys.stdout.flush(); os._exit(2)

def sh256(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]

INCS = ['include', 'external/amd/include', 'external/ldl/include', 'external/SuiteSparse_config']
def repo_sources(REPO):
    s = sorted(f for f in glob.glob(REPO + '/src/*.c') if not os.path.basename(f).startswith('runecos'))
    s += sorted(f for f in glob.glob(REPO + '/ecos_bb/*.c') if not os.path.basename(f).startswith('runecos'))
    s += sorted(glob.glob(REPO + '/external/amd/src/amd_*.c')) + [REPO + '/external/ldl/src/ldl.c']
    return s

BASE = ['-DCTRLC=1', '-DLDL_LONG', '-DDLONG', '-DECOS_VERIF_HOOKS']
VARIANTS = {
    # name: (C compiler, C++ compiler, C flags, C++ flags, link flags, defines)
    'plain': ('clang', 'clang++', ['-O2'], ['-O1'], [], BASE),
    'O0':    ('clang', 'clang++', ['-O0'], ['-O1'], [], BASE),
    'O3':    ('clang', 'clang++', ['-O3', '-march=native'], ['-O1'], [], BASE),
    'gcc':   ('gcc', 'clang++', ['-O2'], ['-O1'], [], BASE),
    'int32': ('clang', 'clang++', ['-O2'], ['-O1'], [], ['-DCTRLC=1', '-DECOS_VERIF_HOOKS']),
    'noctrlc': ('clang', 'clang++', ['-O2'], ['-O1'], [], ['-DCTRLC=0', '-DLDL_LONG', '-DDLONG', '-DECOS_VERIF_HOOKS']),
    'nohook': ('clang', 'clang++', ['-O2'], ['-O1'], [], ['-DCTRLC=1', '-DLDL_LONG', '-DDLONG']),
    'asan':  ('clang', 'clang++', ['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'], ['-O1', '-fsanitize=address'], ['-fsanitize=address,undefined'], BASE + ['-DVF_ASAN']),
    'asan32': ('clang', 'clang++', ['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'], ['-O1', '-fsanitize=address'], ['-fsanitize=address,undefined'], ['-DCTRLC=1', '-DECOS_VERIF_HOOKS', '-DVF_ASAN']),
    'msan':  ('clang', 'clang++', ['-O1', '-fno-omit-frame-pointer', '-fsanitize=memory', '-fsanitize-memory-track-origins', '-fno-sanitize-recover=all'], ['-O1'], ['-fsanitize=memory'], BASE + ['-DVF_MSAN']),
    'tsan':  ('clang', 'clang++', ['-O0', '-fno-omit-frame-pointer', '-fsanitize=thread'], ['-O1', '-fsanitize=thread'], ['-fsanitize=thread'], BASE + ['-DVF_TSAN']),
}
# build options that are set by editing the headers: compiled from a copy of the tree with the definition replaced
def _opt(name, val): return (r'(?m)^(\s*#\s*define\s+%s)\b[^\n/]*' % name, r'\1 (%s) ' % val)
OPTIONS = {
    'noprint': [_opt('PRINTLEVEL', 0), _opt('PROFILING', 0), _opt('MI_PRINTLEVEL', 0)],
    'profile': [_opt('PRINTLEVEL', 1), _opt('PROFILING', 2)],
    'dense':   [_opt('CONEMODE', 1)],
    'noequil': [_opt('EQUILIBRATE', 0)],
    'altequil': [(r'(?m)^(\s*#\s*define\s+)RUIZ_EQUIL\b', r'\1ALTERNATING_EQUIL')],
    'idequil': [(r'(?m)^(\s*#\s*define\s+)RUIZ_EQUIL\b', r'\1NO_EQUIL')],
}
for _n in OPTIONS: VARIANTS[_n] = ('clang', 'clang++', ['-O2'], ['-O1'], [], BASE)
MSHIM = ['-Wl,' + ','.join('--wrap=' + f for f in 'ECOS_setup ECOS_solve ECOS_cleanup ECOS_updateData ecos_updateDataEntry_h ecos_updateDataEntry_c ECOS_BB_setup ECOS_BB_solve ECOS_BB_cleanup updateDataEntry_h updateDataEntry_c get_default_ECOS_BB_settings'.split())]
VARIANTS['msan'][4].extend(MSHIM)
WRAP = '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=ECOS_solve,--wrap=rand,--wrap=clock_gettime'
COMMON = ['main.cc', 'gen.cc', 'mon.cc', 'alloc.cc', 'mip.cc', 'oracle.cc']

def configured(variant):
    """root of the tree a variant is compiled from"""
    if variant not in OPTIONS: return REPO
    dirs = ['include', 'src', 'ecos_bb', 'external/ldl/include', 'external/ldl/src', 'external/amd/include', 'external/amd/src', 'external/SuiteSparse_config']
    files = {}
    for d in dirs:
        for f in sorted(glob.glob(os.path.join(REPO, d, '*.[ch]'))):
            t = open(f, 'rb').read().decode('latin-1')
            if f.endswith('.h'):
                for a, b in OPTIONS[variant]: t = re.sub(a, b, t)
            files[d + '/' + os.path.basename(f)] = t.encode('latin-1')
    root = BUILD + '/cfg-%s-%s' % (variant, sh256(*[x for k in sorted(files) for x in (k.encode(), files[k])])[:16])
    if not os.path.exists(root):
        tmp = root + '.%d.tmp' % os.getpid()
        for k, t in files.items():
            os.makedirs(os.path.dirname(tmp + '/' + k), exist_ok=True); open(tmp + '/' + k, 'wb').write(t)
        try: os.rename(tmp, root)
        except OSError: shutil.rmtree(tmp)
    for o in glob.glob(BUILD + '/cfg-%s-*' % variant):
        if o != root and time.time() - os.path.getmtime(o) > 3600: shutil.rmtree(o, ignore_errors=True)
    return root

def headers_hash(root):
    h = []
    for d in INCS:
        for f in sorted(glob.glob(os.path.join(root, d, '*.h'))):
            h.append(f.encode()); h.append(open(f, 'rb').read())
    for f in sorted(glob.glob(V + '/harness/*.h')) + sorted(glob.glob(V + '/harness/corpus/**/*.h', recursive=True)):
        h.append(open(f, 'rb').read())
    # repository sources that others #include
    return sh256(*h)

def compile_one(job):
    out, cmd = job
    if os.path.exists(out): return None
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return ' '.join(cmd[-3:]) + '\n' + r.stdout[-3000:]
    os.replace(tmp, out); return None

class BuildError(Exception): pass

def build(variant, chkfiles):
    """compiles the repository and the harness in the given variant, returns the executable"""
    cc, cxx, cf, xf, lf, defs = VARIANTS[variant]
    os.makedirs(BUILD + '/obj', exist_ok=True)
    root = configured(variant); hh = headers_hash(root)
    inc = ['-I%s/%s' % (root, d) for d in INCS] + ['-I' + V + '/harness', '-I' + V + '/harness/corpus']
    jobs = []; objs = []
    def add(f, comp, flags):
        cmd = [comp, '-g1', '-w'] + flags + defs + inc
        o = BUILD + '/obj/' + sh256(hh, open(f, 'rb').read(), os.path.basename(f), *cmd) + '.o'
        objs.append(o); jobs.append((o, cmd + ['-c', f]))
    for f in repo_sources(root): add(f, cc, cf + os.environ.get('VERIF_CFLAGS', '').split()) # (development aid: other rounding)
    add(V + '/harness/corpus.c', 'clang', ['-O0'])
    if variant == 'msan': add(V + '/harness/mshim.c', cc, cf)
    for f in [V + '/harness/' + c for c in COMMON] + [V + '/harness/' + c for c in chkfiles]: add(f, cxx, ['-std=c++17', '-Wno-narrowing', '-Wno-c++11-narrowing'] + xf)
    with ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs: raise BuildError(errs[0])
    exe = BUILD + '/x-' + sh256(variant, *objs)
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        r = subprocess.run([cxx, '-g1', '-o', tmp] + objs + lf + [WRAP, '-lm', '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise BuildError(r.stdout[-3000:])
        os.replace(tmp, exe)
    else: os.utime(exe)
    for o in objs: os.utime(o)
    return exe

def prune():
    for pat, keep in (('obj/*.o', 1500), ('x-*', 60)):
        fs = sorted(glob.glob(BUILD + '/' + pat), key=os.path.getmtime)
        for f in fs[:-keep] if len(fs) > keep else []:
            try: os.unlink(f)
            except OSError: pass

ENV = dict(os.environ)
ENV.update(ASAN_OPTIONS='detect_leaks=0:exitcode=77:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_segv=1:strict_memcmp=1',
           UBSAN_OPTIONS='print_stacktrace=1:exitcode=77:halt_on_error=1', MSAN_OPTIONS='exitcode=77:halt_on_error=1:poison_in_free=1',
           TSAN_OPTIONS='exitcode=66:halt_on_error=0:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1')
sy = shutil.which('llvm-symbolizer') or shutil.which('llvm-symbolizer-18')
if sy: ENV['ASAN_SYMBOLIZER_PATH'] = ENV['MSAN_SYMBOLIZER_PATH'] = ENV['UBSAN_SYMBOLIZER_PATH'] = ENV['LLVM_SYMBOLIZER_PATH'] = sy; ENV['TSAN_OPTIONS'] += ':external_symbolizer_path=' + sy

def frames(txt):
    out = []
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S+)', txt):
        fn, loc = m.group(1), m.group(2)
        if REPO + '/' in loc or '/src/' in loc and V not in loc: out.append(fn)
    return out

def classify(err, rc):
    m = re.search(r'ERROR: AddressSanitizer: (\S+)', err)
    if m: kind = 'asan-' + m.group(1)
    elif 'runtime error: ' in err: kind = 'ubsan-' + re.sub(r'[^a-z]+', '-', re.search(r'runtime error: (.*)', err).group(1).lower())[:60].strip('-')
    elif 'MemorySanitizer' in err: kind = 'msan-use-of-uninitialized-value'
    elif 'ThreadSanitizer' in err: kind = 'tsan'
    elif rc < 0: kind = 'signal%d' % -rc
    else: kind = 'exit%d' % rc
    fr = frames(err)
    if kind.startswith('ubsan'):
        m = re.search(r'(\w+\.[ch]):\d+:\d+: runtime error', err)
        if m and not fr: fr = [m.group(1)]
    return 'crash/%s/%s' % (kind, fr[0] if fr else '?')

def load_known(prop):
    ks = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop: ks.append((m.group(2), m.group(3)))
    return ks

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.viol = {}; self.stats = {}; self.maxs = {}; self.sigs = set(); self.samples = []; self.done = 0; self.errors = []; self.notes = []; self.res = {}
        self.parts = []; self.t0 = time.time(); self.halt = None; self.known = load_known(prop)
    def unknown(self, key): return not any(fnmatch.fnmatchcase(key, k[0]) for k in self.known)
    def wait(self, p, limit, out=None):
        """waits for a process; None if it was ended: its time is up, a hang was confirmed elsewhere, or the run takes too long"""
        end = time.time() + limit; step = 0.02; look = 0
        while True:
            try: return p.wait(timeout=step)
            except subprocess.TimeoutExpired: step = min(0.5, step * 1.5)
            now = time.time(); t = now - self.t0
            if self.tier == 'quick' and not self.halt:
                if t > 780: self.halt = 'the run took too long'
                elif t > 360 and now > look:
                    look = now + 5; ks = list(self.viol)
                    if out and os.path.exists(out): ks += re.findall(r'^VIOL .*?"key":"([^"]*)"', open(out, errors='replace').read(), re.M)
                    if any(self.unknown(k) for k in ks): self.halt = 'violations were found and the run takes long'
            if self.halt or now > end: p.kill(); p.wait(); return None
    def violation(self, part, idx, key, msg, extra=None):
        e = self.viol.setdefault(key, {'count': 0, 'first': None})
        e['count'] += 1
        if e['first'] is None or (idx is not None and e['first']['idx'] is not None and idx < e['first']['idx']):
            e['first'] = {'property': self.prop, 'part': part['name'], 'variant': part['variant'], 'reg': part['reg'], 'idx': idx, 'seed': self.seed, 'tier': self.tier, 'key': key, 'msg': msg, 'detail': (extra or '')[-6000:]}

    def shard(self, part, exe, lo, hi, step, wd, tmp, k):
        cur = lo; tries = 0
        while cur < hi:
            if self.halt: self.errors.append('part %s shard %d: not run, %s' % (part['name'], k, self.halt)); return
            base = '%s/%s-%d-%d' % (tmp, part['name'], k, tries); tries += 1
            out, st, er = base + '.out', base + '.st', base + '.err'
            args = [exe, '--check', part['reg'], '--seed', str(self.seed), '--from', str(cur), '--to', str(hi), '--step', str(step), '--out', out, '--status', st, '--watchdog', str(wd)]
            if self.tier == 'thorough': args.append('--thorough')
            env = dict(ENV); env.update(part.get('env', {}))
            with open(er, 'wb') as ef:
                p = subprocess.Popen(args, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=tmp)
                rc = self.wait(p, part.get('wall', 6 * 3600), out)
                if rc is None: self.read(part, out); self.errors.append('part %s shard %d: ended, %s' % (part['name'], k, self.halt or 'wall clock limit')); return
            done = self.read(part, out)
            err = open(er, 'r', errors='replace').read()
            if 'ThreadSanitizer' in err: self.tsan(part, err, cur)
            if done:
                return
            try: idx = int.from_bytes(open(st, 'rb').read(8), 'little', signed=True)
            except Exception: idx = cur
            if rc == 3 or idx < 0 and rc != 0:
                self.errors.append('part %s: harness error at %s (rc %d) %s %s' % (part['name'], idx, rc, err[-800:], open(out).read()[-500:] if os.path.exists(out) else '')); return
            if rc == 9:   # watchdog: decide with a much larger limit before calling it a hang
                o2 = base + '.re'
                a2 = [exe, '--check', part['reg'], '--seed', str(self.seed), '--from', str(idx), '--to', str(idx + 1), '--out', o2, '--watchdog', str(wd * 6)]
                if self.tier == 'thorough': a2.append('--thorough')
                with open(er, 'wb') as ef: r2 = self.wait(subprocess.Popen(a2, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=tmp), wd * 60)
                err = open(er, 'r', errors='replace').read()
                if r2 is None: self.errors.append('part %s case %d: blocked' % (part['name'], idx)); return
                elif r2 == 9:
                    self.violation(part, idx, 'hang/' + part['reg'], 'the call did not return within %d CPU seconds' % (wd * 6))
                    if self.unknown('hang/' + part['reg']): self.halt = self.halt or 'a call does not return'
                elif r2 == 0: self.read(part, o2)
                else: self.violation(part, idx, classify(err, r2), 'crash', err[-4000:])
            else:
                self.violation(part, idx, classify(err, rc), 'the process died: ' + (re.search(r'(ERROR: .*|.*runtime error.*|WARNING: Mem.*)', err).group(0)[:300] if re.search(r'(ERROR: |runtime error|WARNING: Mem)', err) else 'return code %d' % rc), err[:6000])
            cur = idx + step
            if tries > 40: self.notes.append('part %s shard %d: stopped after 40 crashes' % (part['name'], k)); return

    def tsan(self, part, err, cur):
        for blk in err.split('=================='):
            if 'WARNING: ThreadSanitizer' not in blk: continue
            kind = re.search(r'ThreadSanitizer: ([a-z -]+)', blk).group(1).strip().replace(' ', '-')
            tops = []
            for sec in re.split(r'\n\s*\n', blk):
                fr = frames(re.sub(r'#(\d+) (\S+) (/\S+)', r'#\1 0x0 in \2 \3', sec))
                if fr and re.search(r'(read|write|Read|Write) of size', sec): tops.append(fr[0])
            g = re.search(r"Location is global '(\w+)'", blk)
            self.violation(part, cur, 'tsan/%s/%s/%s' % (kind, g.group(1) if g else '-', '+'.join(sorted(set(tops))[:2])), blk.strip().split('\n')[0], blk[:6000])

    def read(self, part, out):
        done = False
        if not os.path.exists(out): return False
        for line in open(out, errors='replace'):
            t, _, r = line.rstrip('\n').partition(' ')
            if t == 'VIOL':
                try: v = json.loads(r)
                except Exception: self.errors.append('unreadable ' + r[:200]); continue
                self.violation(part, v['idx'], v['key'], v['msg'])
            elif t == 'STAT': v, k = r.split(' ', 1); self.stats[k] = self.stats.get(k, 0) + float(v)
            elif t == 'MAX':
                v, k = r.split(' ', 1)
                if k not in self.maxs or float(v) > self.maxs[k]: self.maxs[k] = float(v)
            elif t == 'S': self.sigs.add(r)
            elif t == 'SAMPLE':
                if len(self.samples) < 60: self.samples.append(dict(json.loads(r), part=part['name']))
            elif t == 'RES': k, v = r.split(' ', 1); self.res.setdefault(part['name'], {})[int(k)] = v
            elif t == 'ERROR': self.errors.append('part %s: %s' % (part['name'], r[:500]))
            elif t == 'DONE': self.done += int(r); part['done'] = part.get('done', 0) + int(r); done = True
        return done

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--cases', type=int); ap.add_argument('--replay'); ap.add_argument('--scale', type=float, default=1.0); ap.add_argument('--part'); ap.add_argument('--stats', action='store_true')
    a = ap.parse_args(); t0 = time.time()
    if a.prop not in CK.CHECKS: die('unknown property ' + a.prop)
    ck = CK.CHECKS[a.prop]
    if a.tier not in ('quick', 'thorough'): a.tier = 'quick'
    R = Run(a.prop, a.tier, a.seed); R.t0 = t0
    rep = None
    if a.replay:
        rep = json.load(open(a.replay)); R.seed = rep['seed']; R.tier = rep['tier']
        if rep.get('idx') is None: print('this violation is a rate over the whole run: run the check again'); print(json.dumps(rep, indent=1)); sys.exit(0)
    tmp = tempfile.mkdtemp(prefix='vf-' + a.prop + '-')
    try:
        parts = []
        for i, p in enumerate(ck['parts']):
            p = dict(p); p.setdefault('name', p['variant'] + '-' + p['reg']); p.setdefault('files', ['chk_%s.cc' % a.prop])
            if rep and p['name'] != rep['part']: continue
            if a.part and p['name'] != a.part: continue
            try: p['exe'] = build(p['variant'], p['files'])
            except BuildError as e:
                if p.get('optional'): R.notes.append('part %s skipped, it does not build against this tree: %s' % (p['name'], str(e)[:300])); continue
                die('build of %s failed:\n%s' % (p['name'], e))
            parts.append(p)
        if not parts: die('nothing to run')
        R.parts = parts; tb = time.time()
        jobs = []
        for p in parts:
            n = a.cases or max(1, int((p['quick'] if R.tier == 'quick' else p['thorough']) * a.scale))
            p['n'] = n
            if rep: jobs.append((p, rep['idx'], rep['idx'] + 1, 1)); continue
            w = min(p.get('workers', NPROC), n)
            for k in range(w): jobs.append((p, k, n, w))
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda j: R.shard(j[1][0], j[1][0]['exe'], j[1][1], j[1][2], j[1][3], j[1][0].get('wd', 40) * (10 if rep else 1), tmp, j[0]), enumerate(jobs)))
        if not rep and not a.part and not R.halt:
            for key, msg in (ck['post'](R.stats, R.maxs, R) if 'post' in ck else []): R.violation(parts[0], None, key, msg)
        known = load_known(a.prop); shown = {}; bad = []
        for key, e in sorted(R.viol.items(), key=lambda kv: kv[0]):
            k = next((x for x in known if fnmatch.fnmatchcase(key, x[0])), None)
            if k: shown.setdefault(k, 0); shown[k] += e['count']
            else: bad.append((key, e))
        for k in known:   # every listed finding is announced, with the number of times it was seen in this run
            if k in shown: print('KNOWN-FINDING: property=%s %s (key %s, seen %d times)' % (a.prop, k[1], k[0], shown[k]))
        floor = ck.get('floor', {})
        if not rep and not a.part and not a.cases and a.scale >= 1 and not bad:
            for s, m in floor.items():
                if R.stats.get(s, 0) < m: R.errors.append('observed too little: %s = %g < %g' % (s, R.stats.get(s, 0), m))
        if a.stats:
            for k in sorted(R.stats): print('  %-60s %g' % (k, R.stats[k]))
            for k in sorted(R.maxs): print('  max %-56s %g' % (k, R.maxs[k]))
        rd = V + '/replays'; os.makedirs(rd, exist_ok=True)
        bad.sort(key=lambda kv: -kv[1]['count'])
        for key, e in bad[:12]:
            f = e['first']; path = '%s/%s-%s.json' % (rd, a.prop, sh256(key)[:12])
            if not rep: json.dump(f, open(path, 'w'), indent=1)
            else: path = a.replay
            print('VIOLATION property=%s replay=%s' % (a.prop, path)); print('  key=%s count=%d idx=%s part=%s: %s' % (key, e['count'], f['idx'], f['part'], f['msg'][:600]))
        if not rep and not a.part:
            os.makedirs(V + '/evidence', exist_ok=True)
            smp = []; seenp = {}
            for s in R.samples:
                if seenp.get(s['part'], 0) < 4: seenp[s['part']] = seenp.get(s['part'], 0) + 1; s['case'] = s['case'][:1500]; smp.append(s)
            ev = {'property': a.prop, 'tier': R.tier, 'seed': R.seed, 'level': 'exploration',
                  'coverage': {'evaluations': R.done, 'distinct_nontrivial': len(R.sigs), 'rule': ck['rule'], 'samples': smp[:16],
                               'parts': [{'part': p['name'], 'variant': p['variant'], 'cases': p.get('done', 0)} for p in parts],
                               'observed': {k: (int(v) if v == int(v) else v) for k, v in sorted(R.stats.items())[:260] if v == v and abs(v) < 1e300},
                               'maxima': {k: v for k, v in sorted(R.maxs.items())[:120] if v == v and abs(v) < 1e300}, 'notes': R.notes + R.errors[:5]},
                  'assumptions': ck.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}
            json.dump(ev, open(V + '/evidence/%s.json' % a.prop, 'w'), indent=1)
        prune()
        print('%s %s seed=%d: %d cases, %d distinct, %d violation keys, %d known, build %.1fs, total %.1fs' % (a.prop, R.tier, R.seed, R.done, len(R.sigs), len(bad), len(shown), tb - t0, time.time() - t0))
        for n in R.notes[:5]: print('note: ' + n[:300])
        if bad: sys.exit(1)
        if R.errors: die('; '.join(R.errors[:3])[:3000])
        if not rep and not a.part and (R.done == 0 or not R.sigs): die('the run observed nothing')
        sys.exit(0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == '__main__': main()
