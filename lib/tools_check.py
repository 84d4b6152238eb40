"""P23: gostsum and gost12sum run as a user runs them; oracle: reference digests and the entries put into the lists.
python3 lib/tools_check.py SEED CASE: one case again, with what was run."""
import os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vdrv

class Case:
    def __init__(self, seed, n, tools, refsum, shim, verbose=False):
        self.r = random.Random(seed * 1000003 + n)
        self.n, self.tools, self.refsum, self.shim, self.verbose = n, tools, refsum, shim, verbose
        self.viol, self.cnt, self.sigs, self.trace, self.samples = [], {}, set(), [], []
        self.files = {}
    def count(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n
    def bad(self, key, msg):
        self.viol.append((key, msg + '\n' + '\n'.join(self.trace[-6:])))
    def size(self):
        r = self.r
        return r.choice([0, 1, 31, 32, 33, 63, 64, 65, 127, 128, r.randrange(300), r.randrange(300), r.randrange(5000), r.randrange(5000), r.randrange(70000),
                         262143, 262144, 262145, 262144 + r.randrange(70), 2 * 262144 + r.randrange(-1, 2)] if r.random() < .25 else [r.randrange(700)])
    def content(self):
        r, n = self.r, self.size()
        k = r.randrange(5)
        if k == 0: return bytes(n)
        if k == 1: return b'\xff' * n
        if k == 2: return bytes(r.choice(b'\n\r ab\0\x1a') for _ in range(n)) if n < 10000 else bytes([r.randrange(256)]) * n
        return r.randbytes(n)
    def name(self):
        r = self.r
        while True:
            k = r.randrange(6)
            if k == 0: s = bytes(r.choice(b'abcXYZ019._-+') for _ in range(r.randrange(1, 12)))
            elif k == 1: s = b'f ' + bytes(r.choice(b'ab  \t') for _ in range(r.randrange(1, 6))) + b'z'
            elif k == 2: s = bytes(r.choice([c for c in range(1, 256) if c not in b'\n\r/']) for _ in range(r.randrange(1, 20)))
            elif k == 3: s = bytes(r.choice(b'0123456789abcdef') for _ in range(r.choice([32, 63, 64, 65, 128])))
            elif k == 4: s = b'n' * r.randrange(1, 250)
            else: s = '\u0444\u0430\u0439\u043b'.encode() + b'%d' % r.randrange(99)
            if s[:1] not in (b'-', b' ') and s not in (b'.', b'..', b'L', b'sub', b'missing', b'none') and s not in self.files:
                return s
    def mkfile(self, d):
        s, c = self.name(), self.content()
        with open(os.path.join(os.fsencode(d), s), 'wb') as f:
            f.write(c)
        self.files[s] = (c, self.ref(c))
        return s
    def ref(self, c):
        o = subprocess.run([self.refsum], input=c, stdout=subprocess.PIPE, check=True).stdout.split()
        return [x for x in o]
    def run(self, tool, args, inp=None, env=None, fl=None, chunks=None):
        fl = fl or self.r.choice(['asan', 'plain'])
        e = dict(vdrv.ENV, LC_ALL='C')
        if env: e.update(env)
        cmd = [self.tools[fl][tool]] + list(args)
        self.trace.append('+ %s[%s] %r%s%s' % (tool, fl, list(args), '' if inp is None else ' < %r' % inp[:300], ' %r' % env if env else ''))
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.d, env=e)
        try:
            o, er = p.communicate(inp, timeout=120)
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate()
            self.bad('hang:' + tool, 'no end within 120 s'); return None, b'', b''
        self.trace.append('  rc=%d out=%r err=%r' % (p.returncode, o[:300], er[-300:]))
        if p.returncode < 0 or p.returncode in (99, 134) or b'Sanitizer' in er or b'runtime error' in er:
            self.bad('crash:%s:%s' % (tool, vdrv.crash_key(er.decode(errors='replace'))), '%s: rc %d: %s' % (tool, p.returncode, er[-1500:].decode(errors='replace')))
        self.count('runs')
        return p.returncode, o, er
    # which digest a set of options prints
    def pick(self):
        r = self.r
        if r.random() < .5:
            t = r.random() < .3
            return 'gostsum', (['-t'] if t else []) + (['-b'] if r.random() < .3 else []), 1 if t else 0
        l = r.random() < .5
        return 'gost12sum', ['-l'] if l else [], 3 if l else 2
    def sums(self):
        r = self.r
        tool, opt, w = self.pick()
        names = [self.mkfile(self.d) for _ in range(r.randrange(1, 5))]
        if r.random() < .3: names.insert(r.randrange(len(names) + 1), r.choice([b'missing', b'sub']))
        k = r.randrange(4)
        env, fl, inp, mode = None, None, None, 'args'
        if r.random() < .3:
            env, fl = {'LD_PRELOAD': self.shim, 'SR_MODE': '1', 'SR_AT': str(r.randrange(1000))}, 'plain'
        if k == 0:
            inp = self.files.get(names[0], (b'', 0))[0]
            want, rcw, mode = self.ref(inp)[w] + b' -\n', 0, 'stdin'
            rc, o, e = self.run(tool, opt, inp, env, fl)
        else:
            want = b''.join(self.files[s][1][w] + b' ' + s + b'\n' for s in names if s in self.files)
            rcw = 0 if all(s in self.files for s in names) else 1
            if k == 1 and tool == 'gost12sum':
                mode = 'names'
                sep = r.choice([b'\n', b'\r\n'])
                inp = sep.join(names) + (sep if r.random() < .7 else b'')
                rc, o, e = self.run(tool, opt + ['-x'], inp, env if env is None else None, None)
            else:
                rc, o, e = self.run(tool, opt + names, None, env, fl)
        if rc is None: return
        self.count('digests_compared', want.count(b'\n'))
        self.sigs.add('sum|%s|%d|%s|%s|%d' % (tool, w, mode, [len(self.files[s][0]) % 262144 for s in names if s in self.files][:2], rcw))
        if o != want: self.bad('wrong-output:' + tool, 'printed %r instead of %r' % (o[:400], want[:400]))
        if (rc != 0) != (rcw != 0): self.bad('status:' + tool, 'exit status %d, expected %s' % (rc, 'zero' if rcw == 0 else 'non-zero'))
        if r.random() < .02: self.samples.append('%s %s %s: %d files, status %d' % (tool, ' '.join(opt), mode, len(names), rc))
    def readerr(self):
        """a read error: no digest is printed for that input, the status says so; in check mode the list does not pass"""
        r = self.r
        tool, opt, w = self.pick()
        s = self.mkfile(self.d)
        c = self.files[s][0]
        at = r.randrange(1, len(c) // 262144 + 3)      # the last one falls on the read that gives the end
        hit = at <= (len(c) + 262143) // 262144 + 1
        env = {'LD_PRELOAD': self.shim, 'SR_MODE': '2', 'SR_AT': str(at)}
        check = r.random() < .5
        if check:
            open(os.path.join(self.d, 'L'), 'wb').write(self.files[s][1][w] + b' ' + s + b'\n')
            rc, o, e = self.run(tool, [x for x in opt if x != '-l'] + ['-c', 'L'], None, env, 'plain')
        else:
            rc, o, e = self.run(tool, opt + [s], None, env, 'plain')
        if rc is None: return
        self.sigs.add('readerr|%s|%d|%d|%d|%d' % (tool, w, check, at, hit))
        if not hit: return
        self.count('read_errors')
        if rc == 0: self.bad('read-error-passed:' + tool, 'status 0 though reading failed at call %d' % at)
        if not check and o: self.bad('read-error-digest:' + tool, 'a digest %r though reading failed at call %d' % (o[:200], at))
    def entries(self, tool, w, n):
        r, out = self.r, []
        for _ in range(n):
            k = r.random()
            ww = w if tool == 'gostsum' else r.choice([2, 3])
            s = self.mkfile(self.d)
            dg = self.files[s][1][ww]
            if k < .75: out.append(('good', dg, s))
            elif k < .85:
                i = r.choice([0, len(dg) - 1, len(dg) // 2, r.randrange(len(dg))])
                x = r.choice([c for c in b'0123456789abcdef' if c != dg[i]])
                out.append(('bad', dg[:i] + bytes([x]) + dg[i + 1:], s))
            elif k < .9:        # another file's, the other parameter set's or size's digest
                o = self.files[s][1][1 - w] if tool == 'gostsum' else self.ref(self.content() + b'+')[ww]
                out.append(('bad', o, s))
            elif k < .95:
                c = bytearray(self.files[s][0]) + b''
                if c and r.random() < .7: i = r.choice([0, len(c) - 1, r.randrange(len(c))]); c[i] ^= 1 << r.randrange(8)
                else: c += b'\0'
                open(os.path.join(os.fsencode(self.d), s), 'wb').write(bytes(c))
                self.files[s] = (bytes(c), self.ref(bytes(c)))
                out.append(('bad', dg, s))
            else:
                out.append(('unreadable', dg, r.choice([b'missing', b'sub', b'sub/none'])))
        return out
    def feed(self, tool, opt, data):
        """a list, in each of the ways a list can be given"""
        k = self.r.randrange(3)
        if k == 0: return self.run(tool, opt + ['-c'], data)
        open(os.path.join(self.d, 'L'), 'wb').write(data)
        return self.run(tool, opt + (['-cL'] if k == 1 else ['-c', 'L']))
    def checks(self):
        r = self.r
        tool, opt, w = self.pick()
        opt = [x for x in opt if x != '-l']
        v = r.random() < .5
        if v: opt.append('-v')
        es = self.entries(tool, w, r.choice([1, 1, 2, 3, 6]))
        if r.random() < .3: es = [e if e[0] == 'good' else ('good', self.files[e[2]][1][w], e[2]) for e in es if e[2] in self.files] or [('good', self.ref(b'')[w], self.empty())]
        end = r.choice([b'\n', b'\n', b'\r\n'])
        data = end.join(d + b' ' + s for _, d, s in es) + (end if r.random() < .8 else b'')
        if tool == 'gost12sum' and r.random() < .2: data = data.replace(b'\n', b'\n\n')
        rc, o, e = self.feed(tool, opt, data)
        if rc is None: return
        good = all(k == 'good' for k, _, _ in es)
        kinds = ''.join(sorted(set(k[0] for k, _, _ in es)))
        self.count('lists_good' if good else 'lists_bad'); self.count('list_entries', len(es))
        self.sigs.add('check|%s|%d|%s|%d|%d|%d' % (tool, w, kinds, len(es), v, len(end)))
        if good and rc != 0: self.bad('good-list-refused:' + tool, 'status %d for a list whose entries all match' % rc)
        if not good and rc == 0: self.bad('bad-list-passed:' + tool, 'status 0 though %r' % [(k, s) for k, _, s in es if k != 'good'])
        if v:
            for k, _, s in es:
                if k == 'good' and s + b'\tOK\n' not in e: self.bad('not-reported:' + tool, '%r is not reported as OK' % s)
                if k == 'bad' and s + b'\tFAILED\n' not in e: self.bad('not-reported:' + tool, '%r is not reported as FAILED' % s)
        else:
            for k, _, s in es:
                if k == 'bad' and s not in e: self.bad('not-reported:' + tool, '%r is not named among the failures' % s)
        if r.random() < .02: self.samples.append('%s check of %d entries (%s): status %d' % (tool, len(es), kinds, rc))
    def empty(self):
        s = b'empty%d' % self.r.randrange(10 ** 6)
        open(os.path.join(self.d, s.decode()), 'wb').close(); self.files[s] = (b'', self.ref(b''))
        return s
    def hostile(self):
        """malformed lists: no crash; status 0 only if every readable entry of the list matches and there is one"""
        r = self.r
        tool, opt, w = self.pick()
        opt = [x for x in opt if x != '-l'] + (['-v'] if r.random() < .5 else [])
        es = self.entries(tool, w, r.randrange(0, 4))
        lines = [d + b' ' + s for _, d, s in es]
        if r.random() < .5: lines = [l for l, (k, _, s) in zip(lines, es) if k == 'good']
        junk = [b'', b'\n', b'\r', b'\0', b' ', b'  x', b'\0' * 5 + b'\n', b'0' * 64, b'0' * 64 + b' ', b'0' * 128 + b' ', b'0' * 63 + b' a', b'g' * 64 + b' a', b'a' * 65 + b' x', b'f' * 200 + b' x', b'a' * 64 + b'\tx', b'a' * 5000,
                b'a' * 64 + b' ' + b'q' * 4090, b'a' * 128 + b' ' + b'q' * 3966, b' ' * 4095, b' ' * 4200 + b'x', b'\r' * 70, b'a' * 64 + b' \0', b'\xff' * 64 + b' x', b'a' * 64 + b' \r', b'a b', b'0', b'a' * 64 + b' \n\r\r', b'x' * 63, b'1' * 4094, b'1' * 4095 + b' 2', b'#c']
        for _ in range(r.randrange(1, 4)): lines.insert(r.randrange(len(lines) + 1), r.choice(junk))
        data = b'\n'.join(lines) + (b'\n' if r.random() < .6 else b'')
        if r.random() < .5 and data:
            data = bytearray(data)
            for _ in range(r.randrange(1, 5)):
                i = r.randrange(len(data)) if data else 0
                k = r.randrange(3)
                if k == 0 and data: data[i] = r.choice([0, 10, 13, 32, 255, r.randrange(256)])
                elif k == 1: del data[i:i + r.choice([1, 1, 2, 64])]
                else: data[i:i] = r.choice([b'\n', b'\r\n', b' ', b'\0', r.randbytes(3), b'a' * 64])
            data = bytes(data)
        rc, o, e = self.feed(tool, opt, data)
        if rc is None: return
        self.count('hostile_lists'); self.sigs.add('hostile|%s|%s|%d' % (tool, re.sub(rb'[^ \n\r\0]+', b'w', data)[:24], rc))
        if rc not in (0, 1, 2, 3): self.bad('status:' + tool, 'exit status %d' % rc)
        n, wrong = 0, None
        for l in data.split(b'\n'):
            m = re.match(rb'(%s) ([^\0\r]+)\r*$' % (rb'[0-9a-f]{64}' if tool == 'gostsum' else rb'(?:[0-9a-f]{64}|[0-9a-f]{128})'), l)
            if not m or len(l) > 3900: continue
            n += 1
            f = self.files.get(m.group(2))
            if f is None or f[1][w if tool == 'gostsum' else 2 if len(m.group(1)) == 64 else 3] != m.group(1): wrong = l
        if rc == 0 and wrong is not None: self.bad('bad-list-passed:' + tool, 'status 0 for the list %r, whose entry %r does not match' % (data[:600], wrong[:200]))
        if rc == 0 and not n and b'\0' not in data and not re.search(rb'(?m)^ +[0-9a-f]{64}', data) and len(max(data.split(b'\n'), key=len)) < 3900: self.bad('nothing-checked:' + tool, 'status 0 for the list %r, in which there is no entry' % data[:600])
        if rc == 0 and tool == 'gostsum' and any(l and not re.match(rb'[0-9a-fA-F]{64} ', l) for l in data.rstrip(b' \r\n').split(b'\n')) and len(max(data.split(b'\n'), key=len)) < 3900:
            self.bad('malformed-passed:gostsum', 'status 0 for the malformed list %r' % data[:600])
        # names from standard input
        if r.random() < .2: self.run('gost12sum', ['-x'], r.choice([b'\n', b'\r', b'\r\n\n', b'\0\n', b'a' * 5000, data]))
    def args(self):
        """bad options and lists that are not there do not pass"""
        r = self.r
        tool = r.choice(['gostsum', 'gost12sum'])
        a = r.choice([['-q'], ['-c', 'none'], ['-cnone'], ['-c', 'sub'], ['-c', '/dev/null'], ['--help'], ['-Z', 'x'], ['none'], ['-v', 'none'], ['sub']])
        rc, o, e = self.run(tool, a)
        if rc == 0: self.bad('status:' + tool, 'status 0 for %r' % a)
        if rc is not None and o: self.bad('wrong-output:' + tool, 'printed %r for %r' % (o[:200], a))
        self.sigs.add('args|%s|%s|%s' % (tool, a, rc)); self.count('bad_arguments')
    def go(self):
        self.d = tempfile.mkdtemp(prefix='vtools-')
        try:
            os.mkdir(os.path.join(self.d, 'sub'))
            f = self.r.choices([self.sums, self.readerr, self.checks, self.hostile, self.args], [5, 2, 6, 6, 1])[0]
            self.count('cases:' + f.__name__)
            f()
        finally:
            shutil.rmtree(self.d, ignore_errors=True)
        if self.verbose:
            print('\n'.join(self.trace))
            for v in self.viol: print('VIOL', v[0], v[1][:600])
        return self

def setup(r=None):
    tools = {}
    for fl in ('asan', 'plain'):
        d = vdrv.flavour(fl, ('lib_gost_engine', 'gostsum', 'gost12sum'))
        tools[fl] = {t: os.path.join(d, 'bin', t) for t in ('gostsum', 'gost12sum')}
        if r: r.flav[fl] = 1
    refsum = vdrv.program('refsum', 'plain', ['refsum.c'], link_engine=False)
    shim = os.path.join(os.path.dirname(refsum), 'shortread.so')
    x = vdrv.sh(['gcc', '-O1', '-shared', '-fPIC', '-o', shim, os.path.join(vdrv.H, 'shortread.c'), '-ldl'])
    if x.returncode: raise vdrv.HarnessError(x.stdout)
    return tools, refsum, shim

def check(r):
    t = setup(r)
    n = 40000 if r.thorough() else 2500
    with ThreadPoolExecutor(vdrv.NCPU) as ex:
        for c in ex.map(lambda i: Case(vdrv.SEED, i, *t).go(), range(n)):
            r.evals += 1
            r.sigs |= c.sigs
            for k, v in c.cnt.items(): r.counters[k] = r.counters.get(k, 0) + v
            r.samples += c.samples
            for k, m in c.viol: r.violation(k, m[:4000], 'again: python3 lib/tools_check.py %d %d' % (vdrv.SEED, c.n))
    return r.finish('gostsum and gost12sum run on random files, standard input, lists of names and lists of digests, with short reads and read errors; output compared with reference digests, '
                    'status with what was put into the list; malformed lists under AddressSanitizer and UBSan. distinct: (tool, options, way of input, sizes or kinds of entries, status)',
                    2000, 600, need=('digests_compared', 'lists_good', 'lists_bad', 'hostile_lists', 'read_errors', 'bad_arguments'))

if __name__ == '__main__':
    c = Case(int(sys.argv[1]), int(sys.argv[2]), *setup(), verbose=True).go()
    sys.exit(1 if c.viol else 0)
