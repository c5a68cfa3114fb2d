#!/usr/bin/env python3
"""Runs one property's monitors against /repo's current tree.

  run.py C01 [--tier quick|thorough]     decide one property
  run.py --replay FILE                   re-run the one case of a recorded violation
  run.py --setup                         check the tools, precompile nothing that a check relies on
  run.py --all [--tier T]                every property (development aid)

exit 0: held on everything explored (KNOWN-FINDING lines name the recorded defects)
exit 1: a line "VIOLATION property=<id> replay=<path>" was printed
exit 2: the check itself failed (no verdict)
"""
import os, sys, json, time, subprocess, hashlib, re, fnmatch, shutil, tempfile, threading, struct
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
from checks import CHECKS
SEED = int(os.environ.get('VERIF_SEED', '1'))
NCPU = max(1, min(8, len(os.sched_getaffinity(0))))
LIBS = ['-pthread', '-ldl', '-lm']
MODES = {
 'asan': ['clang', '-std=gnu11', '-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=alignment,function,pointer-overflow',
          '-fno-sanitize-recover=all'],
 'ubsan': ['clang', '-std=gnu11', '-O1', '-g', '-fsanitize=undefined', '-fno-sanitize=alignment,function,pointer-overflow', '-fno-sanitize-recover=all'],
 'tsan': ['clang', '-std=gnu11', '-O1', '-g', '-fsanitize=thread'],
 'plain': ['clang', '-std=gnu11', '-O2', '-g'],
 'gcc': ['gcc', '-std=gnu11', '-O2', '-g', '-latomic'],
}
ENV = dict(os.environ)
ENV.update({
 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1:handle_segv=1:handle_sigfpe=1:handle_sigill=1:max_allocation_size_mb=3000:quarantine_size_mb=16:malloc_context_size=12:symbolize=1',
 'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99:halt_on_error=1',
 'TSAN_OPTIONS': 'halt_on_error=1:exitcode=98:second_deadlock_stack=1:report_signal_unsafe=0',
 'LC_ALL': 'C', 'TZ': 'UTC'})
if shutil.which('llvm-symbolizer-18'): ENV['ASAN_SYMBOLIZER_PATH'] = shutil.which('llvm-symbolizer-18')

class Broken(Exception): pass

def known_findings():
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m: out.append(m.groups())
    return out

def build(prop, var, dst):
    src = os.path.join(V, 'harness', var['src'])
    mode = var.get('mode', 'asan')
    cmd = list(MODES[mode])
    if src.endswith('.cpp') or src.endswith('.cc'):
        cmd[0] = {'clang': 'clang++', 'gcc': 'g++'}[cmd[0]]; cmd = [c if c != '-std=gnu11' else '-std=gnu++14' for c in cmd]
    cmd += ['-w', '-I' + os.path.join(REPO, 'code'), '-I' + os.path.join(V, 'harness')] + var.get('flags', []) + [src, '-o', dst] + LIBS + var.get('libs', [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode and var.get('fallback'): # without the uses that may no longer compile: what remains can still violate, but never pass
        r2 = subprocess.run(cmd[:1] + var['fallback'] + cmd[1:], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not r2.returncode: return 'building all of %s failed:\n%s' % (var['src'], r.stdout[-4000:])
    if r.returncode: raise Broken('building %s failed:\n%s' % (var['src'], r.stdout[-4000:]))

FR = re.compile(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S+)')
def crash_key(rc, err):
    """A stable key for an abnormal end, and a short description."""
    def frame():
        for f, loc in FR.findall(err):
            if '/code/' in loc and 'harness' not in loc: return f
        for f, loc in FR.findall(err):
            if 'harness' in loc: return f
        return '?'
    m = re.search(r'ERROR: AddressSanitizer: (\S+)', err)
    if m and 'runtime error' not in err:
        return 'crash:asan:%s@%s' % (m.group(1).rstrip(':'), frame()), err[m.start():m.start() + 1500]
    m = re.search(r'(\S+?):\d+:\d+: runtime error: (.*)', err)
    if m:
        msg = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", 'N', m.group(2)); msg = re.sub(r'\W+', '-', msg)[:60].strip('-')
        return 'crash:ubsan:%s@%s' % (msg, frame()), err[m.start():m.start() + 1500]
    m = re.search(r'WARNING: ThreadSanitizer: ([^(]+)', err)
    if m:
        fs = sorted(set(f for f, loc in FR.findall(err) if '/code/' in loc))[:3]
        return 'crash:tsan:%s@%s' % (m.group(1).strip().replace(' ', '-'), '+'.join(fs)), err[m.start():m.start() + 2500]
    m = re.search(r'ERROR: ThreadSanitizer: (\S+)', err)
    if m: return 'crash:tsan:%s@%s' % (m.group(1), frame()), err[m.start():m.start() + 1500]
    if rc < 0: return 'crash:signal-%d' % -rc, err[-800:]
    return 'crash:exit-%d' % rc, err[-800:]

class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.viol = {}            # key -> dict
        self.evals = 0; self.stats = {}; self.samples = []; self.hashes = set(); self.inconcl = 0
        self.lock = threading.Lock(); self.broken = None
        self.tmp = tempfile.mkdtemp(prefix='vz-%s-' % prop, dir=os.environ.get('VERIF_TMP') or None)
        os.chmod(self.tmp, 0o755)
        self.stop = False; self.ncrash = 0; self.perscen = {}

    def add(self, var, case, key, detail):
        with self.lock:
            v = self.viol.setdefault(key, {'key': key, 'case': case, 'variant': var['name'], 'detail': detail, 'n': 0})
            v['n'] += 1
            if case < v['case']: v.update(case=case, detail=detail, variant=var['name'])

    def exec1(self, var, exe, lo, hi, tag, cpu_mult=1):
        """One process over [lo,hi). Returns (status, next_case, rc, stderr)."""
        errp = os.path.join(self.tmp, tag + '.err')
        st = os.path.join(self.tmp, tag + '.st')
        with open(errp, 'w') as ef:
            pr = subprocess.Popen([exe, str(SEED), str(lo), str(hi), self.tmp, tag, '1' if self.tier == 'thorough' else '0'],
                                  stdout=ef, stderr=ef, env=ENV, cwd=self.tmp, stdin=subprocess.DEVNULL)
            wall = var.get('wall', 60) * cpu_mult
            last, seen = None, time.time()
            while True:
                try: rc = pr.wait(0.05 if last is None else 0.5); break
                except subprocess.TimeoutExpired: pass
                cur = self.status(st)
                if cur != last: last, seen = cur, time.time()
                elif time.time() - seen > wall:
                    if os.environ.get('VERIF_STACKS'):
                        subprocess.run(['gdb', '-p', str(pr.pid), '-batch', '-ex', 'thread apply all bt 8'], timeout=60)
                    pr.kill(); pr.wait(); rc = 'wall'; break
        err = open(errp, errors='replace').read()
        os.unlink(errp)
        case, hang, n = self.status(st) or (lo, 0, 0)
        shutil.rmtree(os.path.join(self.tmp, tag + '.d'), ignore_errors=True)
        done = self.collect(var, tag)
        return rc, hang, case, n, err, done

    @staticmethod
    def status(p):
        try:
            b = open(p, 'rb').read(24)
            return struct.unpack('QQQ', b) if len(b) == 24 else None
        except OSError: return None

    def collect(self, var, tag):
        p = os.path.join(self.tmp, tag + '.out'); done = False
        if not os.path.exists(p): return False
        for l in open(p, errors='replace'):
            f = l.rstrip('\n').split('\t')
            if f[0] == '@V' and len(f) >= 4: self.add(var, int(f[1]), f[2], f[3])
            elif f[0] == '@S':
                with self.lock: self.stats[f[1]] = self.stats.get(f[1], 0) + int(f[2])
            elif f[0] == '@E':
                with self.lock: self.evals += int(f[1])
            elif f[0] == '@X':
                with self.lock:
                    if len(self.samples) < 12 and len(f) > 1: self.samples.append(f[1])
            elif f[0] == '@DONE': done = True
        os.unlink(p)
        hp = os.path.join(self.tmp, tag + '.h')
        if os.path.exists(hp):
            b = open(hp, 'rb').read()
            with self.lock: self.hashes.update(struct.unpack('%dQ' % (len(b) // 8), b))
            os.unlink(hp)
        return done

    def chunk(self, var, exe, lo, hi, tag):
        n = 0
        while lo < hi and not self.stop:
            t = '%s-%d' % (tag, n); n += 1
            rc, hang, case, cnt, err, done = self.exec1(var, exe, lo, hi, t)
            if rc == 0 and done: break
            if rc == 94: pass # reported by the harness's own watchdog, which then gave up
            elif rc in (95, 96): self.broken = 'harness error (%s, case %d): %s' % (var['name'], case, err[-1500:]); self.stop = True; return
            elif rc in ('wall', 97) :
                # a time-out decides nothing by itself: run that one case again, alone, with a longer limit
                t = '%s-%d' % (tag, n); n += 1
                rc2, h2, c2, cnt2, err2, done2 = self.exec1(var, exe, case, case + 1, t, 2)
                if rc2 == 0 and done2: self.inconcl += 1
                elif rc2 in ('wall', 97): self.add(var, case, 'hang', 'no progress within the limit, twice')
                elif rc2 == 94: pass
                elif rc2 in (95, 96): self.broken = err2[-1500:]; self.stop = True; return
                else: k, d = crash_key(rc2, err2); self.add(var, case, k, d)
            else:
                k, d = crash_key(rc, err); self.add(var, case, k, d)
            with self.lock:
                self.evals += cnt; self.ncrash += 1
                unk = [k for k in self.viol if not self.is_known(k)]
                if self.ncrash > 400 or (unk and self.ncrash > 30): self.stop = True
            lo = case + 1

    def is_known(self, key):
        return any(p == self.prop and fnmatch.fnmatchcase(key, pat) for p, pat, _ in KNOWN)

    def configs(self, confs, ex):
        """The same program in many configurations, for a harness that runs and compares them."""
        d = os.path.join(self.tmp, 'cfg'); os.makedirs(d); H = os.path.join(V, 'harness')
        def one(c):
            exe = os.path.join(d, c['name']); base = ['-w', '-I' + os.path.join(REPO, 'code')] + c.get('flags', [])
            cmds = []
            for i, (src, cc, fl) in enumerate(c['parts']):
                cmds.append(cc.split() + fl + base + ['-c', os.path.join(H, src), '-o', '%s.%d.o' % (exe, i)])
            cmds.append(c['link'].split() + ['%s.%d.o' % (exe, i) for i in range(len(c['parts']))] + c.get('linkflags', []) + ['-o', exe] + LIBS + ['-latomic'])
            for cmd in cmds:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
                if r.returncode:
                    m = re.search(r'.*(error|undefined|multiple).*', r.stdout)
                    open(exe + '.err', 'w').write(m.group(0) if m else r.stdout[-1000:]); return c, False
            return c, True
        # separate pool: this one may be busy with the variants
        with ThreadPoolExecutor(NCPU) as pool: res = list(pool.map(one, confs))
        if not res[0][1]: raise Broken('the reference configuration does not build: ' + open(os.path.join(d, confs[0]['name'] + '.err')).read())
        with open(os.path.join(d, 'list'), 'w') as f:
            for c, ok in res:
                if c.get('lib') : continue
                f.write('%s %s %d\n' % (c['name'], c['have'] if ok else '!', c.get('approx', 0)))

    def go(self, only=None):
        spec = CHECKS[self.prop]
        exes = []
        def b(i_var):
            i, var = i_var; e = os.path.join(self.tmp, 'exe%d' % i); self.partial = build(self.prop, var, e) or getattr(self, 'partial', None); return e
        vs = list(enumerate(spec['variants']))
        if only: vs = [(i, v) for i, v in vs if v['name'] == only[0]]
        with ThreadPoolExecutor(NCPU) as ex:
            extra = ex.submit(self.configs, spec['configs'], ex) if 'configs' in spec else None
            exes = list(ex.map(b, vs))
            if extra: extra.result()
        jobs = {}
        for (i, var), exe in zip(vs, exes):
            if only:
                self.chunk(var, exe, only[1], only[1] + 1, 'r'); continue
            n = var['cases'][0 if self.tier == 'quick' else 1]
            par = max(1, NCPU // var.get('threads', 1))
            cs = var.get('chunk') or max(1, -(-n // (par * 3)))
            jobs.setdefault(par, []).extend((var, exe, lo, min(n, lo + cs), '%s-%d' % (var['name'], lo)) for lo in range(0, n, cs))
        for par, js in jobs.items():
            with ThreadPoolExecutor(par) as ex: list(ex.map(lambda a: self.chunk(*a), js))

    def clean(self): shutil.rmtree(self.tmp, ignore_errors=True)

KNOWN = known_findings()

def check(prop, tier):
    t0 = time.time()
    spec = CHECKS[prop]
    if 'runner' in spec:
        import importlib
        return importlib.import_module(spec['runner']).check(prop, tier, SEED, KNOWN)
    r = Run(prop, tier)
    try:
        r.go()
        if r.broken: raise Broken(r.broken)
        return finish(prop, tier, r, time.time() - t0)
    except Broken as e:
        print('ERROR: property=%s %s' % (prop, e)); return 2
    finally: r.clean()

def finish(prop, tier, r, wall):
    spec = CHECKS[prop]
    known, new = [], []
    for k in sorted(r.viol):
        (known if r.is_known(k) else new).append(r.viol[k])
    for p, pat, what in KNOWN:
        if p == prop:
            hit = [v for v in known if fnmatch.fnmatchcase(v['key'], pat)]
            if hit: print('KNOWN-FINDING: property=%s %s' % (prop, what))
    if os.environ.get('VERIF_VERBOSE'):
        for v in known: print('  known', v['key'], 'x%d' % v['n'], v['detail'][:300])
    for v in new:
        d = os.path.join(V, 'replays'); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha1(v['key'].encode()).hexdigest()[:10]))
        json.dump({'property': prop, 'seed': SEED, 'tier': tier, 'variant': v['variant'], 'case': v['case'], 'key': v['key'], 'detail': v['detail'],
                   'replay': 'VERIF_SEED=%d python3 /verif/run.py --replay %s' % (SEED, path)}, open(path, 'w'), indent=1)
        print('  %s x%d (%s case %d): %s' % (v['key'], v['n'], v['variant'], v['case'], v['detail'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    scen = {k: n for k, n in r.stats.items()}
    missing = [m for m in spec.get('must_see', []) if not r.stats.get(m)]
    cov = {'evaluations': r.evals, 'distinct_nontrivial': len(r.hashes), 'rule': spec['rule'], 'samples': r.samples or ['none'],
           'observed': scen, 'inconclusive_timeouts': r.inconcl, 'variants': [v['name'] for v in spec['variants']]}
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': spec.get('level', 'exploration'), 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(new)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    if new: return 1
    if getattr(r, 'partial', None): print('ERROR: property=%s %s' % (prop, r.partial)); return 2
    if r.evals == 0 or not r.hashes: print('ERROR: property=%s nothing was observed' % prop); return 2
    if missing: print('ERROR: property=%s never observed: %s' % (prop, ', '.join(missing))); return 2
    print('OK property=%s tier=%s evaluations=%d distinct=%d known=%d wall=%.1fs' % (prop, tier, r.evals, len(r.hashes), len(known), wall))
    return 0

def replay(path):
    global SEED
    j = json.load(open(path)); SEED = j['seed']
    r = Run(j['property'], j['tier'])
    try: r.go((j['variant'], j['case']))
    finally: r.clean()
    for v in r.viol.values(): print('reproduced' if v['key'] == j['key'] else 'other', v['key'], v['detail'])
    return 1 if r.viol else 0

def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: i = a.index('--tier'); tier = a[i + 1]; del a[i:i + 2]
    if a[0] == '--replay': return replay(a[1])
    if a[0] == '--setup':
        for t in ('clang', 'gcc', 'python3'):
            if not shutil.which(t): print('missing tool', t); return 2
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        return 0
    props = sorted(CHECKS) if a[0] == '--all' else a
    return max(check(p, tier) for p in props)
if __name__ == '__main__': sys.exit(main())
