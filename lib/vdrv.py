"""Driver library: builds flavours of /repo and the harness programs, runs
workloads in parallel, aggregates what the monitors observed, applies the known
findings, and writes evidence.  Exit codes: 0 held, 1 violation, 2 harness error."""
import fcntl, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(VERIF, '.work')
H = os.path.join(VERIF, 'harness')
NCPU = min(8, os.cpu_count() or 8)
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
ENOUGH = 240      # seconds after which a quick run that found something stops

SAN = '-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=all'
FLAVOURS = {
    'plain': ('gcc', '-O2 -g', ''),
    'asan': ('gcc', SAN, SAN),
    'casan': ('clang', SAN + ' -fno-sanitize=function', SAN),     # type-punned callbacks are not this project's defects
    'tsan': ('gcc', '-O1 -g -fno-omit-frame-pointer -fsanitize=thread', '-O1 -g -fsanitize=thread'),
    'port': ('gcc', '-O2 -g -DPEDANTIC -U__SSE2__', ''),
    'portasan': ('gcc', SAN + ' -DPEDANTIC -U__SSE2__', SAN),
    'clang': ('clang', '-O2 -gdwarf-4', ''),
    'vg': ('gcc', '-O1 -g -fno-omit-frame-pointer', ''),
}
ENV = {
    'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'HOME': '/root', 'LC_ALL': 'C.UTF-8',
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=1:symbolize=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'TSAN_OPTIONS': 'exitcode=98:halt_on_error=0:history_size=4:second_deadlock_stack=1',
    'OPENSSL_CONF': '/dev/null',
}

class HarnessError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def repo_files():
    r = subprocess.run(['git', '-C', REPO, 'ls-files', '-z', '-co', '--exclude-standard'], stdout=subprocess.PIPE)
    if r.returncode == 0:
        return sorted(f for f in r.stdout.decode().split('\0') if f)
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ('.git', '_build')]
        out += [os.path.relpath(os.path.join(d, f), REPO) for f in fs]
    return sorted(out)

def repo_hash():
    h = hashlib.sha256()
    for f in repo_files():
        if not re.search(r'\.(c|h|txt|cmake|in)$', f):
            continue
        p = os.path.join(REPO, f)
        if not os.path.isfile(p):
            continue
        h.update(f.encode() + b'\0')
        with open(p, 'rb') as fp:
            h.update(fp.read())
    return h.hexdigest()[:16]

_rh = None
def flavour(name, targets=('lib_gost_engine',)):
    """Build /repo's current working tree in a flavour; returns the build dir."""
    global _rh
    os.makedirs(WORK, exist_ok=True)
    if _rh is None:
        _rh = repo_hash()
    cc, cf, _ = FLAVOURS[name]
    fh = hashlib.sha256((cc + cf + REPO).encode()).hexdigest()[:6]
    d = os.path.join(WORK, 'b-%s-%s' % (name, fh))
    with open(os.path.join(WORK, 'lock-' + name), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(d, 'vstamp')
        have = open(stamp).read().split() if os.path.exists(stamp) else []
        if have[:1] == [_rh] and all(t in have for t in targets):
            return d
        # same tree, more targets: incremental; otherwise start afresh
        if have[:1] != [_rh]:
            shutil.rmtree(d, ignore_errors=True)
            have = []
        r = sh(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_C_COMPILER=' + cc, '-DCMAKE_BUILD_TYPE=None',
                '-DCMAKE_PROJECT_INCLUDE=' + os.path.join(VERIF, 'lib/no-libprov.cmake'),
                '-DOPENSSL_PROGRAM=/usr/bin/openssl', '-DCMAKE_C_FLAGS=' + cf], env=dict(ENV))
        if r.returncode:
            raise HarnessError('cmake failed for %s:\n%s' % (name, r.stdout[-3000:]))
        r = sh(['ninja', '-C', d] + list(targets), env=dict(ENV))
        if r.returncode:
            raise HarnessError('build of /repo failed for %s:\n%s' % (name, r.stdout[-3000:]))
        with open(stamp, 'w') as f:
            f.write(' '.join([_rh] + sorted(set(have[1:]) | set(targets))))
    return d

RECIPES = {}
def program(name, fl, sources, libs=('-lcrypto',), extra='', link_engine=True, ref_ec=False, targets=('lib_gost_engine',), repo_srcs=(), repo_defs=''):
    """Compile a harness program for a flavour (cached by content); repo_srcs: source files of /repo to compile with repo_defs and link in."""
    RECIPES['vh-' + name] = dict(name=name, sources=list(sources), libs=list(libs), extra=extra.replace(REPO, '@REPO@'), link_engine=link_engine, ref_ec=ref_ec, targets=list(targets),
                                 repo_srcs=list(repo_srcs), repo_defs=repo_defs)
    d = flavour(fl, targets)
    extra = extra.replace('@BUILD@', d)
    cc, cf, hf = FLAVOURS[fl]
    hf = hf or '-O2 -g'
    srcs = [os.path.join(H, s) for s in sources]
    refs = [os.path.join(H, 'ref/ref.c')] + ([os.path.join(H, 'ref/ref_ec.c')] if ref_ec else [])
    h = hashlib.sha256((_rh + cc + hf + extra + repo_defs + ' '.join(libs) + ' '.join(repo_srcs)).encode())
    for f in sorted(srcs + refs + [os.path.join(H, x) for x in os.listdir(H) if x.endswith('.h')] +
                    [os.path.join(H, 'ref', x) for x in os.listdir(os.path.join(H, 'ref')) if x.endswith('.h')]):
        h.update(open(f, 'rb').read())
    out = os.path.join(d, 'vh-' + name)
    st = out + '.stamp'
    with open(os.path.join(WORK, 'lock-prog-%s-%s' % (name, fl)), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out) and os.path.exists(st) and open(st).read() == h.hexdigest():
            return out
        W = '-Wall -Wno-deprecated-declarations -Wno-unused-function -D_GNU_SOURCE'.split()
        inc = ['-I' + H, '-I' + os.path.join(H, 'ref'), '-I' + REPO]
        objs, cmds = [], []
        for f in srcs + refs:
            o = out + '.' + os.path.basename(f) + '.o'
            flags = '-O2 -g'.split() if f in refs else hf.split() + extra.split()
            cmds.append([cc, '-c', '-fPIC', *W, *flags, *inc, f, '-o', o])
            objs.append(o)
        for f in repo_srcs:
            o = out + '.repo.' + os.path.basename(f) + '.o'
            cmds.append([cc, '-c', '-fPIC', '-w', *cf.split(), *repo_defs.split(), '-I' + os.path.join(H, 'libprov'), '-I' + REPO, os.path.join(REPO, f), '-o', o])
            objs.append(o)
        with ThreadPoolExecutor(NCPU) as ex:
            for r in ex.map(lambda c: sh(c), cmds):
                if r.returncode:
                    raise HarnessError('harness compile failed:\n' + r.stdout[-3000:])
        link = [cc, *hf.split(), *extra.split(), *objs, '-o', out]
        if link_engine:
            link += ['-L' + d + '/bin', '-Wl,-rpath,' + d + '/bin', '-l:libgost.so']
        if repo_srcs:
            link += [os.path.join(d, 'libgost_core.a')]
        link += list(libs) + ['-lpthread', '-ldl', '-lm']
        r = sh(link)
        if r.returncode:
            raise HarnessError('harness link failed:\n' + r.stdout[-3000:])
        open(st, 'w').write(h.hexdigest())
    return out

# ---------------------------------------------------------------- findings
def load_findings(pid):
    """known_findings.txt: 'KNOWN property=Pxx key=<regex> [msg=<regex>] :: description'"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN property=(\w+) key=(\S+)(?: msg=(\S+))? :: (.*)', l)
            if m and m.group(1) == pid:
                out.append((re.compile('^(?:' + m.group(2) + ')$'), re.compile(m.group(3)) if m.group(3) else None, m.group(4).strip()))
    return out

def crash_key(text):
    """stable identification of a sanitizer report / crash: kind and innermost engine frames"""
    kind = 'crash'
    m = re.search(r'ERROR: (?:Address|Leak|Memory|Thread)Sanitizer:? ([\w-]+)', text)
    if m:
        kind = m.group(1)
    else:
        m = re.search(r'runtime error: ([^\n]{0,60})', text)
        if m:
            kind = 'ubsan:' + re.sub(r'[^a-z]+', '-', re.sub(r"'[^']*'|0x[0-9a-f]+|\d+", '', m.group(1).lower()))[:40].strip('-')
        elif 'OpenSSL internal error' in text:
            kind = 'openssl-assert'
    frames = re.findall(r'#\d+ 0x[0-9a-f]+ in (\w+) (/\S+)', text)
    fr = [f for f, p in frames if p.startswith(REPO + '/')][:2]
    return kind + ('@' + '<'.join(fr) if fr else '')

class Run:
    def __init__(self, pid, tier, technique_level='exploration'):
        self.pid, self.tier, self.level = pid, tier, technique_level
        self.t0 = time.time()
        self.counters, self.samples, self.sigs = {}, [], set()
        self.viols, self.errors, self.inconclusive = [], [], []
        self.evals = 0
        self.flav = {}
        self.rule = ''
        self.assumptions = []
        self.extra = {}
        self.jobs = []
        self._known, self._seen = None, 0

    def thorough(self):
        return self.tier == 'thorough'

    def violation(self, key, msg, replay):
        self.viols.append((key, msg, replay))

    def add(self, prog, fl, mode, count, start=0, per=None, timeout=600, env=None, wrap=None, leaks=False, args=(), quiet_crash=False):
        """Split `count` cases of a workload into jobs."""
        if per is None:
            per = max(1, (count + NCPU - 1) // NCPU)
        i = start
        while i < start + count:
            n = min(per, start + count - i)
            self.jobs.append(dict(prog=prog, fl=fl, mode=mode, start=i, count=n, timeout=timeout, env=env or {}, wrap=wrap or [], leaks=leaks, args=list(args), quiet_crash=quiet_crash))
            i += n

    def run(self):
        jobs, self.jobs = self.jobs, []
        with ThreadPoolExecutor(NCPU) as ex:
            for res in ex.map(self._job, jobs):
                pass

    def enough(self):
        """A quick run that has seen an unlisted violation need not go on for
        ever: what is left after some minutes is dropped (broken code may make
        every remaining case hang)."""
        if self.tier != 'quick' or time.time() - self.t0 < ENOUGH:
            return False
        if self._known is None:
            self._known = load_findings(self.pid)
        for v in self.viols[self._seen:]:
            if not any(kr.match(v[0]) and (mr is None or mr.search(v[1])) for kr, mr, _ in self._known):
                return True
            self._seen += 1
        return False

    def _job(self, j):
        if self.enough():
            return
        try:
            self._job1(j)
        except Exception as e:  # noqa
            self.errors.append('%s %s: %r' % (j['prog'], j['mode'], e))

    def _job1(self, j):
        start, end, crashes, retried = j['start'], j['start'] + j['count'], 0, False
        while start < end:
            td = tempfile.mkdtemp(prefix='vjob-')
            try:
                env = dict(ENV)
                env.update(VH_STATE=td + '/state', VH_SIGS=td + '/sigs', TMPDIR=td, VH_TMP=td)
                if j['leaks']:
                    env['ASAN_OPTIONS'] = env['ASAN_OPTIONS'].replace('detect_leaks=0', 'detect_leaks=1')
                    env['LSAN_OPTIONS'] = 'exitcode=97:max_leaks=20'
                env.update(j['env'])
                args = [j['prog'], j['mode'], str(SEED), str(start), str(end - start)] + (['thorough'] if self.thorough() else []) + j['args']
                cmd = j['wrap'] + args
                replay = 'prog=%s flavour=%s mode=%s seed=%d' % (os.path.basename(j['prog']), j['fl'], j['mode'], SEED)
                with open(td + '/out', 'wb') as fo, open(td + '/err', 'wb') as fe:
                    try:
                        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=env, cwd=td, start_new_session=True)
                        until = time.time() + j['timeout']
                        while True:
                            try:
                                rc = p.wait(timeout=min(5, max(0.1, until - time.time())))
                                break
                            except subprocess.TimeoutExpired:
                                if time.time() >= until or self.enough():
                                    raise
                    except subprocess.TimeoutExpired:
                        os.killpg(p.pid, 9)
                        p.wait()
                        rc = 'timeout'
                    finally:
                        try:
                            os.killpg(p.pid, 9)
                        except Exception:
                            pass
                out = open(td + '/out', 'rb').read().decode(errors='replace')
                err = open(td + '/err', 'rb').read().decode(errors='replace')
                state = None
                try:
                    state = struct.unpack('<Q', open(td + '/state', 'rb').read(8))[0]
                except Exception:
                    pass
                self._parse(out, err, j, replay)
                if os.path.exists(td + '/sigs'):
                    b = open(td + '/sigs', 'rb').read()
                    self.sigs.update(hash((j['mode'], x)) for x in struct.unpack('<%dQ' % (len(b) // 8), b))
                ended = re.search(r'^END viol=(\d+)', out, re.M)
                if rc == 'timeout':
                    if self.enough():
                        return
                    if not retried:
                        retried = True
                        if state is not None and state < end:
                            start = max(start, state)
                        continue
                    # a case that hangs twice on its own budget
                    if state is not None and start <= state < end:
                        self.violation('hang:' + j['mode'], 'no result within %d s (twice), case %d' % (j['timeout'], state), replay + ' case=%d' % state)
                        crashes += 1
                        start = state + 1
                        if crashes > 2:
                            return
                        continue
                    self.inconclusive.append('timeout in %s' % j['mode'])
                    return
                if rc == 3 or 'HARNESS-ERROR' in err:
                    self.errors.append('%s %s: %s' % (os.path.basename(j['prog']), j['mode'], err[-1500:]))
                    return
                if ended and rc in (0, 1):
                    return
                if rc in (97, 99) and 'LeakSanitizer: detected' in err:
                    self._leaks(err, j, replay)
                    return
                if rc == 98 and ended and 'ThreadSanitizer' in err:
                    return      # judged by _parse
                # died
                key = crash_key(err)
                if rc == -9 and not err.strip():
                    self.errors.append('%s %s killed (memory?)' % (j['prog'], j['mode']))
                    return
                tail = err[:6000] if len(err) > 200 else err + '\n[exit %s]' % rc
                if state is not None and start <= state < end:
                    self.violation(key, 'process died (exit %s) in case %d: %s' % (rc, state, tail[:3000]), replay + ' case=%d' % state)
                    crashes += 1
                    start = state + 1
                    if crashes > 20:
                        return
                    continue
                if state == 2**64 - 2:
                    self.violation(key, 'process died (exit %s) at the end: %s' % (rc, tail[:3000]), replay + ' start=%d count=%d' % (start, end - start))
                    return
                self.errors.append('%s %s died in setup, exit %s: %s' % (os.path.basename(j['prog']), j['mode'], rc, tail))
                return
            finally:
                shutil.rmtree(td, ignore_errors=True)

    def _leaks(self, err, j, replay):
        for blk in re.split(r'\n\n', err):
            if 'leak of' not in blk:
                continue
            frames = re.findall(r'#\d+ 0x[0-9a-f]+ in (\w+) (\S+)', blk)
            fr = [f for f, p in frames if p.startswith(REPO + '/')][:2]
            if not fr:
                continue
            self.violation('leak@' + '<'.join(fr), blk[:1500], replay + ' start=%d count=%d' % (j['start'], j['count']))

    def _parse(self, out, err, j, replay):
        lastv = None
        for l in out.splitlines():
            if l.startswith('COUNT '):
                _, k, v = l.split(' ')
                if k == 'cases':
                    self.evals += int(v)
                    k = 'cases:%s@%s' % (j['mode'], j['fl'])
                self.counters[k] = self.counters.get(k, 0) + int(v)
            elif l.startswith('SAMPLE '):
                if len(self.samples) < 12 and sum(1 for s in self.samples if ('mode=' + j['mode'] + ' ') in s) < 2:
                    self.samples.append(l[7:])
            elif l.startswith('VIOL '):
                m = re.match(r'VIOL key=(\S+) mode=\S+ seed=\d+ case=(\d+) msg=(.*)', l)
                lastv = [m.group(1), m.group(3), replay + ' case=' + m.group(2)]
                self.viols.append(lastv)
            elif l.startswith('TRACE ') and lastv is not None:
                if len(lastv) == 3:
                    lastv.append([])
                lastv[3].append(l[6:])
        if 'WARNING: ThreadSanitizer' in err:
            self.tsan_reports(err, j, replay)

    def tsan_reports(self, err, j, replay):
        for blk in err.split('==================')[0:]:
            m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+?)(?: \(pid|\n)', blk)
            if not m:
                continue
            frames = re.findall(r'#\d+ (\w+) (/\S+)', blk)
            fr = []
            for f, p in frames:
                if p.startswith(REPO + '/') and f not in fr:
                    fr.append(f)
            if not fr:
                continue        # not the engine's code
            self.violation('tsan:' + m.group(1).strip().replace(' ', '-') + '@' + '<'.join(fr[:3]), blk[:2500], replay + ' start=%d count=%d' % (j['start'], j['count']))

    # ------------------------------------------------------------ verdict
    def finish(self, rule, min_evals=1, min_distinct=1, need=()):
        known = load_findings(self.pid)
        fresh, seen = [], {}
        for v in self.viols:
            for kr, mr, desc in known:
                if kr.match(v[0]) and (mr is None or mr.search(v[1])):
                    seen[desc] = seen.get(desc, 0) + 1
                    break
            else:
                fresh.append(v)
        wall = time.time() - self.t0
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.sigs), rule=rule,
                   samples=self.samples[:10] or ['(none)'], observed=dict(sorted(self.counters.items())), flavours=sorted(self.flav))
        cov.update(self.extra)
        if self.inconclusive:
            cov['inconclusive'] = self.inconclusive
        if seen:
            cov['known_findings_observed'] = seen
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(fresh))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for desc in [d for _, _, d in known]:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, desc))
        if fresh:
            rd = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, '%s-%s.txt' % (self.pid, self.tier))
            uniq = {}
            for v in fresh:
                uniq.setdefault(v[0], []).append(v)
            with open(rp, 'w') as f:
                f.write('property %s tier %s seed %d\nreplay one case with: bin/replay %s [number of the entry]\nrecipes=%s\n\n' % (self.pid, self.tier, SEED, rp, json.dumps(RECIPES)))
                for k, vs in uniq.items():
                    for v in vs[:3]:
                        f.write('key=%s\n%s\n%s\n' % (k, v[2], v[1]))
                        for t in (v[3] if len(v) > 3 else [])[-60:]:
                            f.write('    ' + t + '\n')
                        f.write('\n')
            for k, vs in list(uniq.items())[:12]:
                print('violated: key=%s x%d: %s' % (k, len(vs), vs[0][1][:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            sys.stdout.flush()
            return 1
        if self.errors:
            print('HARNESS ERROR: ' + '\n'.join(self.errors[:5]))
            return 2
        miss = [n for n in need if not self.counters.get(n)]
        if self.evals < min_evals or len(self.sigs) < min_distinct or miss:
            print('INCONCLUSIVE: too little observed (evaluations %d, distinct %d, missing %s)' % (self.evals, len(self.sigs), miss))
            return 2
        if self.inconclusive:
            print('INCONCLUSIVE: ' + '; '.join(self.inconclusive[:5]))
            return 2
        print('held: property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs' % (self.pid, self.tier, self.evals, len(self.sigs), wall))
        return 0
