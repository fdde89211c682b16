#!/usr/bin/env python3
"""Driver: python3 check.py <property> [--tier quick|thorough] [--seed N]

Builds the needed flavours from /repo's working tree, runs the property's jobs on all cores, collects what
the monitors observed, routes every violation key through known_findings.txt, writes evidence/<id>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Anything else: the check itself failed."""
import json, os, re, signal, subprocess, sys, time, threading, shutil, tempfile, queue
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import vbuild, specs

REPO = vbuild.REPO


def scratch_root():
    for base in ('/dev/shm', '/tmp'):
        try:
            return tempfile.mkdtemp(prefix='vroot.', dir=base)
        except OSError:
            pass
    raise SystemExit(2)


def load_known():
    known = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                known.append(m.groups())
    return known


class Run:
    def __init__(self, job, idx, seed, exe, root, outdir):
        self.job, self.idx, self.seed, self.exe, self.root = job, idx, seed, exe, root
        self.base = os.path.join(outdir, 'job%d' % idx)
        self.viols, self.stats, self.sigs, self.samples = [], {}, set(), []
        self.status = None

    def cmd(self, attempt):
        d = os.path.join(self.root, 'j%d.%d' % (self.idx, attempt))
        os.makedirs(d, exist_ok=True)
        self.dir = d
        c = [self.exe] if not self.job.get('py') else ['python3', self.exe]
        return c + self.job['args'] + ['--seed=%d' % self.seed, '--root=' + d,
                                       '--out=' + self.base + '.out', '--trace=' + self.base + '.trace']

    def go(self, stop, procs):
        attempts = 1 + self.job.get('retries', 1)
        for att in range(attempts):
            for s in ('.out', '.trace', '.err'):
                if os.path.exists(self.base + s):
                    os.unlink(self.base + s)
            cmd = self.cmd(att)
            env = dict(os.environ)
            env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1'
            env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=99'
            env['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4:suppressions=' + os.path.join(VERIF, 'tools', 'tsan.supp')
            env.update(self.job.get('env', {}))
            with open(self.base + '.err', 'wb') as ef:
                p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, cwd=self.dir, env=env, start_new_session=True)
                procs.add(p)
                t0 = time.time()
                to = self.job.get('timeout', 240)
                timed = False
                while True:
                    try:
                        p.wait(0.1)
                        break
                    except subprocess.TimeoutExpired:
                        if stop.is_set() or time.time() - t0 > to:
                            timed = not stop.is_set()
                            break
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                procs.discard(p)
            shutil.rmtree(self.dir, ignore_errors=True)
            if stop.is_set():
                self.status = 'stopped'
                self.collect()
                return
            rc = p.returncode
            if timed:
                self.status = 'timeout'
                if att + 1 < attempts:
                    continue
            else:
                self.status = rc
            break
        self.collect()
        self.last_cmd = cmd
        err = open(self.base + '.err', 'rb').read().decode('utf8', 'replace')
        if self.status == 'timeout':
            self.viols.append(('hang', 'job did not finish within %ds, twice' % to))
        elif rc in (0, 3):
            if rc == 3 and not self.viols:
                self.status = 'error'
        elif rc == 2:
            self.status = 'error'
        elif rc == 66 and not self.viols and self.foreign_races(err):
            self.status = 0
            self.stats['races_inside_jemalloc'] = self.stats.get('races_inside_jemalloc', 0) + 1
        else:
            self.viols.append(self.crash_key(rc, err))
        self.err = err

    @staticmethod
    def foreign_races(err):
        """True if all races are between accesses made by libjemalloc itself, whose locks the sanitizer does not see."""
        blocks = [b for b in err.split('==================') if 'WARNING: ThreadSanitizer' in b]
        for b in blocks:
            if 'ThreadSanitizer: data race' not in b:
                return False
            stacks = re.findall(r'\n  (?:Previous )?(?:atomic )?(?:read|write|Read|Write|Atomic read|Atomic write) of size[^\n]*\n((?:    #[^\n]*\n)+)', b)
            if len(stacks) != 2:
                return False
            for st in stacks:
                fr = [l for l in st.splitlines() if l.strip()]
                own = [l for l in fr if 'libtsan' not in l]
                if not own or 'libjemalloc' not in own[0]:
                    return False
        return bool(blocks)

    def crash_key(self, rc, err):
        m = re.search(r'ERROR: AddressSanitizer:? ([\w-]+)', err)
        kind = None
        if m:
            kind = 'asan_' + m.group(1)
        elif 'runtime error:' in err:
            kind = 'ubsan'
        elif 'WARNING: ThreadSanitizer' in err:
            m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+)', err)
            kind = 'tsan_' + m.group(1).strip().replace(' ', '_')
        if kind:
            fr = re.findall(r'#\d+ (?:0x[0-9a-f]+ in )?(\S+?)(?:\(.*?\))? .*?/src/(?!test)(\S+?):\d+', err)
            fn = fr[0][0] if fr else 'unknown'
            msg = ' | '.join(l.strip() for l in err.splitlines() if 'ERROR: ' in l or 'runtime error' in l or 'SUMMARY' in l or 'WARNING: Thread' in l)[:600]
            return ('%s@%s' % (kind, re.sub(r'[^\w:~]', '', fn)), msg or kind)
        if rc < 0:
            return ('crash_sig%d' % -rc, 'the process died with signal %d: %s' % (-rc, err.strip()[-300:].replace('\n', ' | ')))
        return ('exit_%d' % rc, 'unexpected exit status %d: %s' % (rc, err.strip()[-300:].replace('\n', ' | ')))

    def collect(self):
        p = self.base + '.out'
        if not os.path.exists(p):
            return
        for l in open(p, errors='replace'):
            l = l.rstrip('\n')
            if l.startswith('STAT '):
                k, v = l.split(' ', 1)[1].rsplit(' ', 1)
                k = k.replace(' ', '_')
                self.stats[k] = self.stats.get(k, 0) + int(v)
            elif l.startswith('SIG '):
                self.sigs.add(l[4:])
            elif l.startswith('SAMPLE '):
                self.samples.append(l[7:])
            elif l.startswith('VIOL '):
                k, _, m = l[5:].partition('\t')
                self.viols.append((k, m))


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    i = 1
    while i < len(a):
        if a[i] == '--tier':
            tier = a[i + 1]; i += 2
        elif a[i] == '--seed':
            seed = int(a[i + 1]); i += 2
        else:
            print('unknown argument', a[i]); return 2
    spec = specs.SPECS[pid]
    t0 = time.time()
    jobs = spec['jobs'](tier)
    need = {}
    for j in jobs:
        if not j.get('py'):
            need.setdefault(j.get('fl', 'plain'), set()).add(j['h'])
        for fl, h in j.get('also', []):
            need.setdefault(fl, set()).add(h)
    exes = {}
    try:
        for fl, hs in need.items():
            for h, e in vbuild.build(fl, sorted(hs)).items():
                exes[(fl, h)] = e
        libs = vbuild.aux(spec.get('aux', []))
    except RuntimeError as e:
        print(str(e)[-5000:])
        print('BUILD-ERROR: the tree does not build')
        return 2
    tb = time.time()
    outdir = os.path.join(VERIF, 'out', pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    root = scratch_root()
    os.chmod(root, 0o755)
    q = []
    n = 0
    for ji, j in enumerate(jobs):
        for s in range(j.get('shards', 1)):
            jj = dict(j)
            jj['args'] = [x.replace('@ROOT@', root) for x in j['args']]
            jj['env'] = {k: v.replace('@AUX:' + k2 + '@', p2) if '@AUX:' in v else v for k, v in j.get('env', {}).items() for k2, p2 in (libs.items() or [('', '')])} if j.get('env') else {}
            exe = os.path.join(VERIF, 'harness', j['h'] + '.py') if j.get('py') else exes[(j.get('fl', 'plain'), j['h'])]
            for fl, h in j.get('also', []):
                jj['args'] = jj['args'] + ['--exe_%s=%s' % (h, exes[(fl, h)])]
            q.append(Run(jj, n, seed * 100003 + ji * 1009 + s, exe, root, outdir))
            n += 1
    runs = list(q)
    # weight: exclusive jobs use several cores
    stop = threading.Event()
    procs = set()
    known = load_known()
    cond = threading.Condition()
    slots = [max(2, os.cpu_count() or 8)]
    seen_known = {}
    bad = []

    def kmatch(key, msg):
        for kid, kre, desc in known:
            if kid == pid and re.fullmatch(kre, key):
                return desc
        return None

    def work(r):
        w = min(r.job.get('cores', 1), max(2, os.cpu_count() or 8))
        with cond:
            while slots[0] < w and not stop.is_set():
                cond.wait(1)
            slots[0] -= w
        try:
            if not stop.is_set():
                try:
                    r.go(stop, procs)
                except Exception as e:  # harness failure
                    r.status = 'error'
                    r.err = repr(e)
                for k, m in r.viols:
                    d = kmatch(k, m)
                    if d:
                        seen_known[k] = d
                    else:
                        bad.append((r, k, m))
                        if not os.environ.get('VERIF_KEEP_GOING'):
                            stop.set()
        finally:
            with cond:
                slots[0] += w
                cond.notify_all()

    try:
        ths = [threading.Thread(target=work, args=(r,), daemon=True) for r in runs]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    finally:
        for p in list(procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
        shutil.rmtree(root, ignore_errors=True)
    stats, sigs, samples = {}, set(), []
    for r in runs:
        for k, v in r.stats.items():
            stats[k] = max(stats.get(k, 0), v) if k.startswith('max_') else stats.get(k, 0) + v
        sigs |= r.sigs
        for s in r.samples[:2]:
            if len(samples) < 8:
                samples.append('%s %s seed %d: %s' % (r.job['h'], ' '.join(x for x in r.job['args']), r.seed, s))
    ev = sum(stats.get(k, 0) for k in spec['evals'])
    wall = time.time() - t0
    evid = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'exploration'),
        'coverage': {'evaluations': ev, 'distinct_nontrivial': len(sigs), 'rule': spec['rule'], 'samples': samples or ['none'],
                     'observed': dict(sorted(stats.items())), 'jobs': len(runs),
                     'known_findings_seen': sorted(seen_known), 'build_s': round(tb - t0, 1)},
        'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(bad)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evid, f, indent=1)
    for k, d in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, d, k))
    if bad:
        for n, (r, k, m) in enumerate(bad):
            rp = os.path.join(outdir, 'violation%d.txt' % n)
            with open(rp, 'w') as f:
                f.write('property: %s\nkey: %s\nmessage: %s\ncommand: %s\nseed: %d\n' % (pid, k, m, ' '.join(getattr(r, 'last_cmd', [])), r.seed))
                f.write('--- stderr tail\n' + getattr(r, 'err', '')[-8000:])
                if os.path.exists(r.base + '.trace'):
                    f.write('\n--- trace tail\n' + open(r.base + '.trace', errors='replace').read()[-60000:])
            print('%s: %s' % (k, m[:800]))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    errs = [r for r in runs if r.status in ('error', None, 'stopped')]
    if errs:
        for r in errs[:3]:
            print('CHECK-ERROR: job %d (%s) %s: %s' % (r.idx, ' '.join(r.job['args']), r.status, getattr(r, 'err', '')[-1500:]))
        return 2
    for k, v in spec.get('need', {}).items():
        if stats.get(k, 0) < v:
            print('CHECK-ERROR: inconclusive, observed %s=%d, needed %d' % (k, stats.get(k, 0), v))
            return 2
    print('OK property=%s tier=%s seed=%d evaluations=%d distinct=%d jobs=%d build=%.1fs wall=%.1fs' % (pid, tier, seed, ev, len(sigs), len(runs), tb - t0, wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
