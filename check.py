#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property of RankDB.

1. builds the drivers in harness/ against /repo's working tree,
2. lets TLC check the design specification exhaustively within small constants,
3. runs the real code (random drivers, and behaviours generated by TLC from the
   design specification), recording one trace per shard,
4. lets TLC decide whether each recorded trace is a behaviour of the trace
   specification.  Only a rejected trace of the real code is a violation.

Exit 0: everything accepted, 1: VIOLATION, 2: the check itself failed.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from plan import PLAN

SPEC = os.path.join(HERE, 'spec')
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
T0 = time.time()


class Infra(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def tlc(scratch, name, spec, cfg, env=None, args=(), workers=1, heap='2g', timeout=800, dfs=False, parallel=False, xss='128m'):
    meta = tempfile.mkdtemp(prefix='tlc.', dir=scratch)
    cmd = ['java', '-Xss' + xss, '-Xmx' + heap, '-XX:+UseParallelGC' if parallel else '-XX:+UseSerialGC',
           '-Djava.io.tmpdir=' + meta]
    if dfs:
        cmd.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
    cmd += ['-cp', TLA, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers),
            '-config', cfg] + list(args) + [spec]
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    try:
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra('TLC ran out of time on ' + name)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.stdout)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return r.returncode, r.stdout, gen, dist


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = PLAN[prop]
        self.scratch = tempfile.mkdtemp(prefix='verif.%s.' % prop, dir='/tmp')
        self.lock = threading.Lock()
        self.genlock = threading.Lock()
        self.scripts = {}
        self.states = self.trans = self.traces = self.episodes = self.events = self.undecided = 0
        self.kinds = {}
        self.mc = []
        self.samples = []
        self.rejected = []
        self.infra = []
        self.stop = self.broken = False

    def build(self):
        self.bin = os.path.join(self.scratch, 'vh')
        r = sh([os.path.join(HERE, 'tools', 'build.sh'), self.bin])
        if r.returncode != 0:
            raise Infra('build failed:\n' + r.stdout[-4000:])

    # -- exhaustive checking of the design
    def model_check(self, m):
        code, out, gen, dist = tlc(self.scratch, m['cfg'], m['spec'], m['cfg'], workers=m.get('workers', 2),
                                   heap=m.get('heap', '4g'), args=m.get('args', ()), timeout=m.get('timeout', 800), parallel=True)
        if code != 0 or 'No error has been found' not in out:
            raise Infra('design check %s failed:\n%s' % (m['cfg'], out[-3000:]))
        with self.lock:
            self.mc.append({'config': m['cfg'], 'generated': gen, 'distinct': dist})
            self.states += dist
            self.trans += gen

    # -- behaviours generated from the specification
    def all_behaviours(self, g):
        """All behaviours of a finite specification, which also checks its properties."""
        with self.genlock:
            key = (g['spec'], g['cfg'])
            if key not in self.scripts:
                code, out, gen, dist = tlc(self.scratch, g['cfg'], g['spec'], g['cfg'], heap='6g', timeout=800, workers=g.get('workers', 1))
                if code != 0 or 'No error has been found' not in out:
                    raise Infra('design check %s failed:\n%s' % (g['cfg'], out[-3000:]))
                self.scripts[key] = sorted({json.loads(x) for x in out.splitlines() if x.startswith('"') and x.endswith('"')})
                with self.lock:
                    self.mc.append({'config': g['cfg'], 'generated': gen, 'distinct': dist, 'behaviours': len(self.scripts[key])})
                    self.states += dist
                    self.trans += gen
            return self.scripts[key]

    def generate(self, g, idx, d, shards):
        if g.get('exhaustive'):
            path = os.path.join(d, 'script.ndjson')
            with open(path, 'w') as f:
                for x in self.all_behaviours(g)[idx % shards::shards]:
                    f.write(x + '\n')
            return path
        code, out, gen, dist = tlc(self.scratch, g['cfg'], g['spec'], g['cfg'],
                                   args=['-simulate', 'num=%d' % g['num'], '-depth', str(g['depth']),
                                         '-seed', str(self.seed * 1000 + idx)], timeout=600)
        path = os.path.join(d, 'script.ndjson')
        n = 0
        with open(path, 'w') as f:
            for line in out.splitlines():
                if line.startswith('"') and line.endswith('"'):
                    try:
                        s = json.loads(line)
                        json.loads(s)
                    except ValueError:
                        continue
                    f.write(s + '\n')
                    n += 1
        if n == 0 or 'Error:' in out:
            raise Infra('no behaviours generated by %s:\n%s' % (g['cfg'], out[-3000:]))
        return path

    def shard(self, t, idx):
        if self.stop or self.broken:
            return
        d = tempfile.mkdtemp(prefix='s%d.' % idx, dir=self.scratch)
        trace = os.path.join(d, 'trace.ndjson')
        cmd = [self.bin, '-mode', t['mode'], '-seed', str(self.seed * 100003 + idx), '-out', trace, '-dir', d]
        for k in ('profile', 'n', 'ops', 'watchdog'):
            if k in t:
                cmd += ['-' + k, str(t[k])]
        if 'gen' in t:
            cmd += ['-script', self.generate(t['gen'], idx, d, t['shards'])]
        if t.get('user'):
            os.chmod(self.scratch, 0o755)
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                               timeout=t.get('timeout', 600), env=dict(os.environ, TMPDIR=d, GOTRACEBACK='all'))
        except subprocess.TimeoutExpired:
            raise Infra('driver ran out of time: ' + ' '.join(cmd))
        if p.returncode != 0:
            self.crash(t, p, trace, cmd)
        self.validate(t, trace, cmd, d, p.stderr)
        shutil.rmtree(d, ignore_errors=True)

    def crash(self, t, p, trace, cmd):
        """A crash of the process with code of RankDB on the stack is an observation of the code: it
        becomes an event that no specification allows.  Anything else is an error of the check."""
        err = p.stderr
        m = re.search(r'^(panic: |fatal error: |SIGSEGV|runtime: goroutine stack exceeds).*$', err, re.M)
        if p.returncode == 2 and m:
            blocks = err[m.start():].split('\n\n')
            frames = [b for b in blocks if b.lstrip().startswith('goroutine ')]
            top = frames[0] if frames else ''
            calls = [l for l in top.splitlines()[1:] if l and not l.startswith('\t') and not l.startswith('created by')]
            calls = [l for l in calls if not re.match(r'(panic|runtime|sync|internal|testing|bytes|sort|math|strings|encoding|bufio|io|reflect|time|context|errors|fmt)[./(]', l)]
            if calls and 'Vivino/rankdb' in top and not calls[0].startswith('main.'):
                head = json.dumps({'ev': 'tables'})
                if os.path.exists(trace + '.tables'):
                    head = open(trace + '.tables').read().strip()
                msg = re.sub(r'[^ -!#-\[\]-~]', ' ', m.group(0) + ' in ' + calls[0])[:300]
                with open(trace, 'w') as f:
                    f.write(head + '\n')
                    f.write(json.dumps({'ev': 'crash', 'err': msg}) + '\n')
                return
        raise Infra('driver failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd), err[-6000:]))

    def validate(self, t, trace, cmd, d, stderr):
        lines = open(trace).read().splitlines()
        if len(lines) < 2:
            raise Infra('empty trace: ' + ' '.join(cmd))
        spec = t['spec']
        code, out, gen, dist = tlc(self.scratch, trace, spec + '.tla', t.get('cfg', spec + '.cfg'), env={'TRACE': trace},
                                   heap=t.get('heap', '2g'), dfs=t.get('dfs', False), xss=t.get('xss', '128m'), timeout=t.get('tlc_timeout', 600))
        acc = re.search(r'<<"ACCEPTED", (\d+)>>', out)
        rej = re.search(r'<<"REJECTED", (\d+)>>', out)
        kinds = {}
        eps = 0
        for s in lines[1:]:
            m = re.search(r'"ev":"?\s*"?([A-Za-z0-9_]+)"', s)
            k = json.loads(s).get('ev') if not m else m.group(1)
            kinds[k] = kinds.get(k, 0) + 1
            if k == 'begin':
                eps += 1
        with self.lock:
            self.states += dist
            self.trans += gen
            self.traces += eps
            self.events += len(lines) - 1
            self.undecided += len(re.findall('"UNDECIDED"', out))
            for k, v in kinds.items():
                self.kinds[k] = self.kinds.get(k, 0) + v
            if len(self.samples) < 2:
                i = min(len(lines) - 1, 12)
                self.samples.append({'shard': ' '.join(cmd[1:]), 'events': [clip(x) for x in lines[1:i]]})
        if acc and not rej and int(acc.group(1)) == len(lines):
            return
        if not rej:
            raise Infra('TLC gave no verdict on %s:\n%s' % (' '.join(cmd), out[-4000:]))
        pos = int(rej.group(1))
        with self.lock:
            n = len(self.rejected)
            rd = os.path.join(HERE, 'evidence', 'replay', '%s-%d' % (self.prop, n))
            shutil.rmtree(rd, ignore_errors=True)
            os.makedirs(rd)
            # from the begin of the rejected episode only
            b = max([i for i in range(1, min(pos, len(lines))) if '"begin"' in lines[i]] or [1])
            with open(os.path.join(rd, 'trace.ndjson'), 'w') as f:
                f.write('\n'.join([lines[0]] + lines[b:]) + '\n')
            with open(os.path.join(rd, 'README'), 'w') as f:
                f.write('property %s\ndriver: %s\nfirst event not allowed by %s: line %d of trace.ndjson\n%s\n' %
                        (self.prop, ' '.join(cmd[1:]), spec, pos - b + 1, clip(lines[pos - 1]) if pos <= len(lines) else ''))
                f.write('\nreplay: cd /verif/spec && TRACE=%s/trace.ndjson java -Xss128m -cp %s tlc2.TLC -config %s %s.tla\n' %
                        (rd, TLA, t.get('cfg', spec + '.cfg'), spec))
            for extra in ('.stack',):
                if os.path.exists(trace + extra):
                    shutil.copy(trace + extra, os.path.join(rd, 'stack.txt'))
            with open(os.path.join(rd, 'stderr.txt'), 'w') as f:
                f.write(stderr[-200000:])
            self.rejected.append((rd, clip(lines[pos - 1]) if pos <= len(lines) else '?'))
            self.stop = True

    def run(self):
        tier = self.plan[self.tier] if self.tier in self.plan else self.plan['quick']
        jobs = []
        for m in tier.get('mc', ()):
            jobs.append((self.model_check, m))
        idx = 0
        ts = []
        for t in tier['traces']:
            for _ in range(t['shards']):
                ts.append((self.shard, t, idx))
                idx += 1
        # interleave the kinds of shards, so that a rejection is found early
        jobs += ts
        with concurrent.futures.ThreadPoolExecutor(max_workers=tier.get('parallel', 8)) as ex:
            fs = [ex.submit(*j) for j in jobs]
            for f in concurrent.futures.as_completed(fs):
                try:
                    f.result()
                except Infra as e:
                    self.infra.append(str(e))
                    self.broken = len(self.infra) > 2
                except Exception as e:  # noqa
                    self.infra.append(repr(e))
                    import traceback
                    traceback.print_exc()

    def evidence(self):
        cov = {'states': self.states, 'transitions': self.trans, 'traces_validated_against_impl': self.traces,
               'events_validated': self.events, 'episodes_given_up': self.undecided, 'event_kinds': dict(sorted(self.kinds.items())),
               'design_model_checking': self.mc, 'samples': self.samples}
        e = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': cov,
             'assumptions': self.plan.get('assumptions', []), 'wall_s': round(time.time() - T0, 1),
             'violations': len(self.rejected)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(e, f, indent=1)
            f.write('\n')


def clip(s, n=1500):
    return s if len(s) <= n else s[:n] + '...'


def findings(prop):
    p = os.path.join(HERE, 'known-findings.txt')
    for line in open(p):
        if line.startswith('finding: property=%s ' % prop):
            print('KNOWN-FINDING: ' + line[len('finding: '):].strip())


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = Check(prop, tier, seed)
    try:
        c.build()
        c.run()
        c.evidence()
    except Infra as e:
        print('ERROR:', e)
        sys.exit(2)
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)
    findings(prop)
    for rd, what in c.rejected:
        print('VIOLATION property=%s replay=%s' % (prop, rd))
        print('  first event that is not allowed:', what)
    if c.rejected:
        for e in c.infra:
            print('NOTE:', e[:500])
        sys.exit(1)
    if c.infra:
        for e in c.infra[:1]:
            print('ERROR:', e)
        sys.exit(2)
    print('%s holds on everything explored: %d traces (%d events) accepted, %d states, %.0f s' %
          (prop, c.traces, c.events, c.states, time.time() - T0))


main()
