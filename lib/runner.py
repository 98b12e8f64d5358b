"""Runs a sharded harness, replays what it reports, writes evidence and prints the verdict."""
import array, json, os, shutil, struct, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF
JOBS = build.JOBS

def clean_env(scratch, extra=None):
    e = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': scratch, 'LC_ALL': 'C.UTF-8', 'LANG': 'C.UTF-8',
         'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:fast_unwind_on_malloc=1:malloc_context_size=6',
         'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99', 'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66'}
    if extra:
        e.update(extra)
    return e

def known_findings(pid):
    """cases listed as known, not fixed:  known: property=Pxx case=<exact description>"""
    r = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            l = l.rstrip('\n')
            if l.startswith('known: property=%s case=' % pid):
                r.append(l.split(' case=', 1)[1])
    return r

class Result:
    def __init__(self):
        self.cases = self.steps = 0
        self.families = {}
        self.samples = []
        self.states = set()
        self.violations = []   # (desc, msg, replay dict)
        self.known = []
        self.notes = []

class Check:
    def __init__(self, pid, tier, level='model_checking', rule=''):
        self.pid, self.tier, self.level, self.rule = pid, tier, level, rule
        self.t0 = time.time()
        self.res = Result()
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        self.scratch = tempfile.mkdtemp(prefix='mc-%s-' % pid, dir=base)
        self.known = known_findings(pid)
        self.extra = {}

    # ---- sharded C++ harness -------------------------------------------------
    def harness(self, exe, args=(), timeout=600, shards=JOBS, env=None, tag=''):
        out = tempfile.mkdtemp(prefix='run-', dir=self.scratch)
        e = clean_env(out, env)
        ps = []
        for i in range(shards):
            err = open('%s/stderr.%d' % (out, i), 'wb')
            ps.append((i, subprocess.Popen([exe, '--tier', self.tier, '--shard', str(i), '--shards', str(shards), '--out', out] + list(args),
                                           stdout=subprocess.DEVNULL, stderr=err, env=e, cwd=out)))
        end = time.time() + timeout
        suspects = []
        if os.environ.get('VERIF_FAILFAST'):   # development aid (tools/mutsweep.py): stop at the first report
            while any(p.poll() is None for i, p in ps) and time.time() < end and not any(p.poll() not in (None, 0) for i, p in ps) and not any(os.path.exists('%s/fail.%d' % (out, i)) and os.path.getsize('%s/fail.%d' % (out, i)) for i, p in ps):
                time.sleep(0.2)
            if any(p.poll() is None for i, p in ps) and time.time() < end:
                for i, p in ps: p.kill(); p.wait()
                print('FAILFAST'); shutil.rmtree(self.scratch, ignore_errors=True); os._exit(1)
        for i, p in ps:
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); rc = 'timeout'
            if rc not in (0, 1):
                suspects.append((i, rc))
        r = self.res
        fails = []
        for i in range(shards):
            f = '%s/fail.%d' % (out, i)
            if os.path.exists(f):
                for l in open(f, encoding='utf-8', errors='replace'):
                    c = l.rstrip('\n').split('\t')
                    if len(c) >= 5:
                        fails.append((i, int(c[0]), int(c[1]), c[2], c[3], c[4]))
            f = '%s/stats.%d' % (out, i)
            if os.path.exists(f):
                for l in open(f, encoding='utf-8', errors='replace'):
                    c = l.rstrip('\n').split('\t')
                    if c[0] == 'cases': r.cases += int(c[1])
                    elif c[0] == 'steps': r.steps += int(c[1])
                    elif c[0] == 'family': r.families[tag + c[1]] = r.families.get(tag + c[1], 0) + int(c[2])
                    elif c[0] == 'sample' and len(r.samples) < 24: r.samples.append(tag + c[1])
            f = '%s/states.%d' % (out, i)
            if os.path.exists(f):
                a = array.array('Q')
                a.frombytes(open(f, 'rb').read())
                r.states.update(a)
        for i, rc in suspects:
            fam, idx, desc = self.current(out, i)
            tail = open('%s/stderr.%d' % (out, i), encoding='utf-8', errors='replace').read()
            if rc == 'timeout':
                raise RuntimeError('%s shard %d did not finish in %d s (family %d case %d)' % (os.path.basename(exe), i, timeout, fam, idx))
            if rc == 3:
                raise RuntimeError('harness error in %s: %s' % (exe, tail[-2000:]))
            what = 'no answer within the time limit' if rc == 78 else self.crash_summary(rc, tail)
            fails.append((i, fam, idx, 'crash', desc or 'family %d case %d' % (fam, idx), what))
        done = 0
        for (i, fam, idx, fname, desc, msg) in fails:
            if desc in self.known:
                if desc not in [k[0] for k in r.known]:
                    r.known.append((desc, msg))
                continue
            if done >= 3 or len(r.violations) >= 3:
                continue
            how = self.confirm(exe, args, i, shards, fam, idx, env)
            if how:
                done += 1
                r.violations.append((desc, msg, {'exe': os.path.basename(exe), 'args': list(args), 'shard': i, 'shards': shards, 'family': fname,
                                                 'case': '%d:%d' % (fam, idx), 'mode': how, 'description': desc, 'observed': msg, 'tier': self.tier}))
            else:
                r.notes.append('not reproducible, not reported: %s %s' % (desc, msg))
        shutil.rmtree(out, ignore_errors=True)

    def current(self, out, i):
        try:
            b = open('%s/current.%d' % (out, i), 'rb').read()
            fam, idx = struct.unpack_from('QQ', b, 0)
            d = b[28:].split(b'\0', 1)[0].decode('utf-8', 'replace')
            return fam, idx, d
        except Exception:
            return 0, 0, ''

    @staticmethod
    def crash_summary(rc, tail):
        s = ''
        for l in tail.splitlines():
            if 'ERROR: ' in l or 'runtime error' in l or 'WARNING: ThreadSanitizer' in l or 'terminate called' in l or 'what():' in l:
                s = l.strip(); break
        fr = [l.strip() for l in tail.splitlines() if l.strip().startswith('#') and 'libvoikko' in l][:3]
        return 'process ended with status %s %s %s' % (rc, s, ' '.join(fr))

    def confirm(self, exe, args, shard, shards, fam, idx, env):
        """A reported case is re-run alone, then (if it needs the preceding cases) with its shard's history."""
        for mode in ('--only', '--upto'):
            ok = 0
            for _ in range(2):
                out = tempfile.mkdtemp(prefix='replay-', dir=self.scratch)
                try:
                    p = subprocess.run([exe, '--tier', self.tier, '--shard', str(shard), '--shards', str(shards), '--out', out, mode, '%d:%d' % (fam, idx), '--hang', '60'] + list(args),
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=clean_env(out, env), cwd=out, timeout=280)
                    rc = p.returncode
                    if rc == 1:
                        ok += any(l.split('\t')[:2] == [str(fam), str(idx)] for l in open('%s/fail.%d' % (out, shard), encoding='utf-8', errors='replace'))
                    elif rc not in (0, 3):
                        ok += self.current(out, shard)[:2] == (fam, idx)
                except subprocess.TimeoutExpired:
                    pass
                finally:
                    shutil.rmtree(out, ignore_errors=True)
                if not ok: break
            if ok == 2:
                return mode
        return None

    # ---- direct use (Python explorers) ---------------------------------------
    def violation(self, desc, msg, replay=None):
        if desc in self.known:
            self.res.known.append((desc, msg)); return
        d = {'description': desc, 'observed': msg, 'tier': self.tier}
        d.update(replay or {})
        self.res.violations.append((desc, msg, d))

    def finish(self):
        r = self.res
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        cov = {'states': len(r.states), 'transitions': r.steps, 'traces_validated_against_impl': r.cases, 'samples': r.samples or ['(none)'],
               'rule': self.rule, 'families': r.families, 'exhaustive_within_bounds': not r.violations}
        cov.update(self.extra)
        if r.notes: cov['notes'] = r.notes[:20]
        ev = {'property': self.pid, 'tier': self.tier, 'seed': seed, 'level': self.level, 'coverage': cov, 'wall_s': round(time.time() - self.t0, 2)}
        evd = os.environ.get('VERIF_EVIDENCE', VERIF + '/evidence')
        os.makedirs(evd, exist_ok=True)
        with open('%s/%s.json' % (evd, self.pid), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for d, m in r.known:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, d, m))
        for n in r.notes:
            print('note: ' + n)
        print('%s %s: %d cases, %d steps, %d distinct states, %.1f s' % (self.pid, self.tier, r.cases, r.steps, len(r.states), time.time() - self.t0))
        for k in sorted(r.families):
            print('   %-50s %d' % (k, r.families[k]))
        if r.violations:
            os.makedirs(VERIF + '/build/replays', exist_ok=True)
            for n, (d, m, rep) in enumerate(r.violations[:5]):
                p = '%s/build/replays/%s-%d.json' % (VERIF, self.pid, n)
                json.dump(dict(rep, property=self.pid), open(p, 'w'), indent=1)
                print('case: %s\nobserved: %s' % (d, m))
                print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        if r.cases == 0:
            print('error: nothing was explored'); return 2
        return 0


def standard(pid, rule, parts, timeout=(800, 10800)):
    """parts: (harness, variant, args, tag). Returns (build_all, run) for a check that is a list of sharded harness runs."""
    def build_all(tier):
        return [build.build_harness(p[0], p[1], tool=p[4] if len(p) > 4 else None, tool_variant=p[5] if len(p) > 5 else None) for p in parts]
    def run(tier):
        exes = build_all(tier)
        c = Check(pid, tier, rule=rule)
        for exe, p in zip(exes, parts):
            args, tag = p[2], p[3]
            c.harness(exe, args, timeout=timeout[0] if tier == 'quick' else timeout[1], tag=tag)
        return c.finish()
    return build_all, run
