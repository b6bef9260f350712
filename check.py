#!/usr/bin/env python3
"""Deterministic simulation of vgram: generates scenarios from a seed, runs them in the simulator (sim/), decides the
properties, minimises and reports violations.

  check.py PROP [--tier quick|thorough] [--seed N] [--runs N] [--start N] [--jobs N] [--base DIR]
  check.py --replay FILE
  check.py --setup
  check.py --determinism PROP...     same seeds twice, with different numbers of workers
"""
import argparse, fcntl, hashlib, json, os, queue, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sim'))
import gen

REPO = os.environ.get('VGRAM_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')


class CheckError(Exception):
    pass


# ------------------------------------------------------------------ build
def tree_hash(repo):
    h = hashlib.sha256()
    roots = [os.path.join(repo, 'core/src/main/cpp'), os.path.join(repo, 'binding/src/main/cpp'), os.path.join(HERE, 'sim')]
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds.sort()
            if '__pycache__' in d:
                continue
            for f in sorted(fs):
                if f.endswith(('.cc', '.h', '.cpp', '.hpp', '.sh')):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode() + b'\0')
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
    return h.hexdigest()[:20]


def build(repo):
    key = tree_hash(repo)
    out = os.path.join(BUILD, key)
    exe = os.path.join(out, 'vsim')
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            olds = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD) if d != 'lock')
            for _, d in olds[:-6]:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
            tmp = out + '.tmp'
            shutil.rmtree(tmp, ignore_errors=True)
            r = subprocess.run(['bash', os.path.join(HERE, 'sim', 'build.sh'), repo, tmp], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise CheckError('build failed:\n' + r.stdout[-3000:])
            for f in os.listdir(tmp):
                if f.endswith('.o'):
                    os.unlink(os.path.join(tmp, f))
            os.rename(tmp, out)
    return exe


# ------------------------------------------------------------------ scenarios as text
def to_text(sc):
    head, ops = sc
    return '\n'.join([fmt(head)] + [fmt(o) for o in ops] + ['end']) + '\n'


def fmt(o):
    name, args = o
    return ' '.join([name] + ['%s=%s' % (k, v) for k, v in args.items()])


def from_text(text):
    head, ops = None, []
    for line in text.splitlines():
        line = line.strip()
        if not line or line.startswith('#'):
            continue
        w = line.split()
        if w[0] == 'end':
            break
        args = {}
        for a in w[1:]:
            k, _, v = a.partition('=')
            args[k] = v
        if w[0] == 'scenario':
            head = (w[0], args)
        else:
            ops.append((w[0], args))
    return head, ops


# ------------------------------------------------------------------ simulator processes
class Worker:
    def __init__(self, exe, base, verbose=False):
        self.exe, self.base, self.verbose = exe, base, verbose
        self.p = None
        self.dir = None

    def start(self):
        self.dir = tempfile.mkdtemp(prefix='w', dir=self.base)
        env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'TZ': 'UTC'}
        self.p = subprocess.Popen([self.exe, self.dir] + (['-v'] if self.verbose else []), stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

    def ask(self, text):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(text.encode())
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = b''
        if not line:
            self.stop()
            raise CheckError('the simulator process ended unexpectedly')
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            self.p.kill()
            self.p.wait()
            self.p = None
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None


def run_once(exe, base, sc, verbose=False):
    w = Worker(exe, base, verbose)
    try:
        return w.ask(to_text(sc))
    finally:
        w.stop()


# ------------------------------------------------------------------ a batch of runs
class Batch:
    def __init__(self, exe, base, prop, seed, tier, start, count, jobs, deadline):
        self.exe, self.base, self.prop, self.seed, self.tier = exe, base, prop, seed, tier
        self.next, self.end = start, start + count
        self.lock = threading.Lock()
        self.jobs, self.deadline = jobs, deadline
        self.results = {}
        self.bad = None
        self.errors = []
        self.blocks = 0
        self.known = []
        self.known_hits = {}

    def take(self):
        with self.lock:
            if self.next >= self.end or time.time() > self.deadline or self.errors:
                return None
            if self.bad is not None and self.next > self.bad:
                return None
            i = self.next
            self.next += 1
            return i

    def work(self):
        w = Worker(self.exe, self.base)
        try:
            while True:
                i = self.take()
                if i is None:
                    break
                sc = gen.scenario(self.prop, self.seed, i, self.tier)
                r = w.ask(to_text(sc))
                with self.lock:
                    self.results[i] = r
                    if r['status'] == 'error':
                        self.errors.append('run %d: %s' % (i, r['msg']))
                    elif r['status'] == 'violation':
                        k = match_known(self.known, r)
                        if k is not None:
                            self.known_hits[k] = self.known_hits.get(k, 0) + 1
                        elif self.bad is None or i < self.bad:
                            self.bad = i
            if w.p is not None:
                w.p.stdin.write(b'coverage\n')
                w.p.stdin.flush()
                c = json.loads(w.p.stdout.readline())
                with self.lock:
                    self.blocks = max(self.blocks, c['blocks'])
        except (CheckError, json.JSONDecodeError, OSError) as e:
            with self.lock:
                self.errors.append(str(e))
        finally:
            w.stop()

    def run(self):
        ts = [threading.Thread(target=self.work) for _ in range(self.jobs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


# ------------------------------------------------------------------ known findings
def load_known(prop):
    r = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) match=/(.*)/ (.*)', line.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return r


def match_known(known, r):
    for i, (key, rx, _) in enumerate(known):
        if r['key'] == key and rx.search(r['msg']):
            return i
    return None


# ------------------------------------------------------------------ minimisation
def simpler_values(k, v):
    if re.fullmatch(r'-?\d+', v):
        n = int(v)
        c = []
        if k in ('n', 'len', 'A', 'K', 'L', 'per', 'threads', 'ents', 'size', 'f.oom', 'f.intr', 'f.at', 'pre', 'bs', 'iters', 'rq', 'f.wchunk', 'f.rchunk'):
            for t in (1, 2, 3, 5, n // 4, n // 2, n * 3 // 4, n - 1):
                if 0 < t < n and t not in c:
                    c.append(t)
        elif k in ('noise', 'o', 'g', 'emp', 'mode', 'how', 'env', 'fix', 'verb'):
            if n not in (0,):
                c = [0]
        return [str(x) for x in c]
    return []


KEEP = {'m', 'kind', 't', 'f'}


class Minimiser:
    def __init__(self, exe, base, sc, verdict, budget_s, jobs):
        self.exe, self.base, self.key = exe, base, verdict['key']
        self.best, self.verdict = sc, verdict
        self.deadline = time.time() + budget_s
        self.runs = 0
        self.seen = set()
        self.workers = [Worker(exe, base) for _ in range(jobs)]

    def trial(self, w, sc):
        t = to_text(sc)
        try:
            r = w.ask(t)
        except (CheckError, json.JSONDecodeError):
            return None
        self.runs += 1
        return r if r['status'] == 'violation' and r['key'] == self.key else None

    def first_good(self, cands):
        """the first candidate (in order) that still fails the same way"""
        cands = [c for c in cands if to_text(c) not in self.seen]
        pos = 0
        while pos < len(cands) and time.time() < self.deadline:
            chunk = cands[pos:pos + len(self.workers)]
            res = [None] * len(chunk)

            def go(i):
                res[i] = self.trial(self.workers[i], chunk[i])
            ts = [threading.Thread(target=go, args=(i,)) for i in range(len(chunk))]
            [t.start() for t in ts]
            [t.join() for t in ts]
            for i, r in enumerate(res):
                if r is None:
                    self.seen.add(to_text(chunk[i]))
                else:
                    self.best, self.verdict = chunk[i], r
                    return True
            pos += len(chunk)
        return False

    def run(self):
        try:
            # drop operations, large pieces first
            size = max(1, len(self.best[1]) // 2)
            while time.time() < self.deadline:
                head, ops = self.best
                cands = [(head, ops[:i] + ops[i + size:]) for i in range(len(ops) - size, -1, -size) if len(ops) > size]
                if self.first_good(cands):
                    size = min(size, max(1, len(self.best[1]) // 2))
                    continue
                if size == 1:
                    break
                size = max(1, size // 2)
            # simplify arguments, faults first
            progress = True
            while progress and time.time() < self.deadline:
                progress = False
                head, ops = self.best
                cands = []
                for i, (name, args) in enumerate(ops):
                    for k in sorted(args, key=lambda k: (not k.startswith('f.'), k)):
                        if k in KEEP:
                            continue
                        if k.startswith('f.') or k in ('noise', 'emp', 'g', 'o', 'mode', 'how', 'rp', 'rq', 'verb'):
                            a = {x: y for x, y in args.items() if x != k}
                            cands.append((head, ops[:i] + [(name, a)] + ops[i + 1:]))
                        for v in simpler_values(k, str(args[k])):
                            a = dict(args)
                            a[k] = v
                            cands.append((head, ops[:i] + [(name, a)] + ops[i + 1:]))
                    if len(ops) > 1:
                        cands.append((head, ops[:i] + ops[i + 1:]))
                while self.first_good(cands):
                    progress = True
                    h2, o2 = self.best
                    if len(o2) != len(ops):
                        break
                    # continue with the remaining ideas on the new best
                    ops = o2
                    cands = []
                    for i, (name, args) in enumerate(ops):
                        for k in args:
                            if k in KEEP:
                                continue
                            for v in simpler_values(k, str(args[k])):
                                a = dict(args)
                                a[k] = v
                                cands.append((head, ops[:i] + [(name, a)] + ops[i + 1:]))
            self.switches()
        finally:
            for w in self.workers:
                w.stop()
        return self.best, self.verdict

    def switches(self):
        """write the schedule out explicitly and drop switches that do not matter"""
        head, ops = self.best
        idx = [i for i, o in enumerate(ops) if o[0] in ('readers', 'trainers')]
        if not idx or not self.verdict.get('sw'):
            return
        i = idx[-1]
        parts = [s.strip(',') for s in self.verdict['sw'].split(';') if s]
        if not parts or len(parts[-1]) > 60000:
            return
        sw = parts[-1].split(',')

        def with_sw(l):
            a = {k: v for k, v in ops[i][1].items() if k not in ('mean', 'mean2', 'stall', 'sseed')}
            a['sw'] = ','.join(l) if l else '0:0'
            return head, ops[:i] + [(ops[i][0], a)] + ops[i + 1:]
        if not self.first_good([with_sw(sw)]):
            return
        size = max(1, len(sw) // 2)
        while time.time() < self.deadline:
            cands = [sw[:j] + sw[j + size:] for j in range(0, len(sw), size)]
            hit = False
            for l in cands:
                if self.first_good([with_sw(l)]):
                    sw = l
                    hit = True
                    break
            if hit:
                continue
            if size == 1:
                break
            size //= 2


# ------------------------------------------------------------------ commands
def write_replay(prop, tier, seed, index, sc, verdict, original):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%s-%d.txt' % (prop, tier, seed, index))
    with open(path, 'w') as f:
        f.write('# property=%s seed=%s tier=%s run=%d\n# %s: %s\n# expect key=%s hash=%s\n# replay: python3 check.py --replay %s\n' % (
            prop, seed, tier, index, verdict['key'], verdict['msg'].replace('\n', ' ')[:1000], verdict['key'], verdict['hash'], path))
        f.write(to_text(sc))
        f.write('# --- before minimisation:\n')
        for l in to_text(original).splitlines():
            f.write('# ' + l + '\n')
    return path


def replay(path, repo, base):
    exe = build(repo)
    text = open(path).read()
    sc = from_text(text)
    m = re.search(r'^# expect key=(\S*) hash=(\S+)', text, re.M)
    r = run_once(exe, base, sc, verbose=True)
    print(r.get('log', ''))
    print('status=%s key=%s hash=%s' % (r['status'], r['key'], r['hash']))
    print(r['msg'])
    if r['status'] == 'violation':
        if m and (m.group(1), m.group(2)) != (r['key'], r['hash']):
            print('note: recorded was key=%s hash=%s' % m.groups())
        print('VIOLATION property=%s replay=%s' % (sc[0][1]['prop'], path))
        return 1
    return 0 if r['status'] == 'ok' else 2


def check(prop, tier, seed, runs, start, jobs, repo, base):
    t0 = time.time()
    exe = build(repo)
    t1 = time.time()
    conf = gen.PROFILES[prop]
    count = runs if runs else conf[tier]
    wall = conf.get('wall', {}).get(tier, 300 if tier == 'quick' else 2400)
    b = Batch(exe, base, prop, seed, tier, start, count, jobs, t1 + wall)
    b.known = load_known(prop)
    b.run()
    t2 = time.time()
    if b.errors:
        raise CheckError('; '.join(b.errors[:3]))
    status, extra = 0, {}
    for k, (key, rx, what) in enumerate(b.known):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    if b.bad is not None:
        fails = [i for i, r in sorted(b.results.items()) if r['status'] == 'violation' and match_known(b.known, r) is None]
        seen = []
        for i in fails[:6]:
            sc = gen.scenario(prop, seed, i, tier)
            first = b.results[i]
            # the same run again, in fresh processes: it has to fail in the same way
            again = [run_once(exe, base, sc) for _ in range(2)]
            if all((r['status'], r['key']) == ('violation', first['key']) for r in again):
                break
            seen.append('run %d is not reproducible: %s / %s' % (i, brief(first), ' / '.join(brief(r) for r in again)))
        else:
            raise CheckError('; '.join(seen))
        mn = Minimiser(exe, base, sc, first, 60 if tier == 'quick' else 240, jobs)
        best, verdict = mn.run()
        final = [run_once(exe, base, best) for _ in range(2)]
        if not all((r['status'], r['key']) == ('violation', first['key']) for r in final):
            print('note: the minimised run does not always fail; the replay is the run as it was found')
            best, verdict, final = sc, first, again
        exact = len({first['hash']} | {r['hash'] for r in again}) == 1 and len({verdict['hash']} | {r['hash'] for r in final}) == 1
        if not exact:
            print('note: the event log differs between executions: something decides in this tree that the simulator does not control, such as addresses')
        final = final[-1]
        path = write_replay(prop, tier, seed, i, best, final, sc)
        print('run %d of seed %s violates %s: %s: %s' % (i, seed, prop, final['key'], final['msg'][:1200]))
        print('minimised from %d to %d operations in %d runs:' % (len(sc[1]), len(best[1]), mn.runs))
        sys.stdout.write(to_text(best))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        status = 1
        extra = {'violation': {'key': final['key'], 'msg': final['msg'][:500], 'replay': path, 'exact': exact}}
    else:
        need = conf.get('probes', [])
        tot = total(b.results, 'probes')
        missing = [p for p in need if not tot.get(p)]
        if missing and len(b.results) >= conf['quick'] and start == 0:
            # conditions the search must reach; on a changed tree they may be unreachable, so this is only reported
            print('note: never reached in this run: ' + ', '.join(missing))
            extra['unreached'] = missing
    evidence(prop, tier, seed, b, conf, t0, t1, t2, status, extra)
    n = len(b.results)
    print('%s %s: %d runs in %.0f s (build %.0f s), %d distinct, %d violations' % (
        prop, tier, n, t2 - t1, t1 - t0, len(set(r['hash'] for r in b.results.values())), status))
    return status


def brief(r):
    return '%s %s %s %s' % (r['status'], r['key'], r['hash'], r['msg'][:200])


def total(results, field):
    t = {}
    for r in results.values():
        for k, v in r[field].items():
            t[k] = t.get(k, 0) + v
    return t


def evidence(prop, tier, seed, b, conf, t0, t1, t2, status, extra):
    rs = b.results
    n = len(rs)
    probes, faults = total(rs, 'probes'), total(rs, 'faults')
    steps = sum(r['steps'] for r in rs.values())
    key = conf['nontrivial']
    nontrivial = set(r['hash'] for r in rs.values() if any(r['probes'].get(k) for k in key))
    samples = []
    for i in sorted(rs):
        if any(rs[i]['probes'].get(k) for k in key):
            samples.append({'run': i, 'scenario': to_text(gen.scenario(prop, seed, i, tier)).strip().split('\n'),
                            'verdict': rs[i]['status'], 'hash': rs[i]['hash'], 'steps': rs[i]['steps']})
            if len(samples) >= 2:
                break
    if not samples and rs:
        i = min(rs)
        samples = [{'run': i, 'scenario': to_text(gen.scenario(prop, seed, i, tier)).strip().split('\n'), 'verdict': rs[i]['status']}]
    dt = max(t2 - t1, 1e-3)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': n,
            'distinct_nontrivial': len(nontrivial),
            'rule': 'A case is one simulated run: an operation and fault sequence drawn from PRNG(seed, property, run number). '
                    'Distinct: the hash of its event log (operations, observations, step counts). Non-trivial: it reached at least one of the probes ' + ', '.join(key) + '. ' + conf['about'],
            'samples': samples,
            'runs_per_hour': int(n * 3600 / dt),
            'seeds_per_hour': int(n * 3600 / dt),
            'simulated_steps': steps,
            'simulated_time': 'no property depends on a clock; simulated time is counted in executed basic blocks of the code under test (simulated_steps)',
            'faults_injected': faults,
            'probes': probes,
            'distinct_logs': len(set(r['hash'] for r in rs.values())),
            'distinct_interleavings': len(set(r['sw'] for r in rs.values() if r['sw'])),
            'basic_blocks_of_the_code_reached': b.blocks,
            'known_findings_hit': {b.known[k][2]: v for k, v in b.known_hits.items()},
            'real_code': conf['real'],
            'stubs': 'pybind11.h (PyErr_CheckSignals and py::args only); libc rand/time/clock/entropy/pid, operator new, file descriptors, locks and std::cout are the simulator\'s',
        },
        'assumptions': ['sampling, not enumeration: a clean batch is evidence, not proof',
                        'threads are switched at basic blocks of the code under test, not at single instructions, and memory is sequentially consistent'] if conf.get('threads') else
                       ['sampling, not enumeration: a clean batch is evidence, not proof'],
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if status else 0,
    }
    ev['coverage'].update(extra)
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


def determinism(props, seed, runs, repo, base):
    exe = build(repo)
    bad = 0
    for prop in props:
        logs = []
        for jobs in (8, 3, 1):
            n = runs if jobs > 1 else max(1, runs // 8)
            b = Batch(exe, base, prop, seed, 'quick', 0, n, jobs, time.time() + 3600)
            b.known = []
            b.bad = -1 if False else None
            b.run()
            logs.append({i: (r['status'], r['key'], r['hash'], r['steps'], r['sw']) for i, r in b.results.items()})
        diff = [i for i in logs[0] if any(i in l and l[i] != logs[0][i] for l in logs[1:])]
        print(prop, len(logs[0]), 'runs compared,', len(diff), 'differ', diff[:10])
        bad += len(diff)
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--runs', type=int, default=0)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=max(1, min(16, os.cpu_count() or 1)))
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--print', type=int, default=None)
    ap.add_argument('--determinism', action='store_true')
    a = ap.parse_args()
    base = tempfile.mkdtemp(prefix='vgram-sim-')
    try:
        if a.setup:
            build(REPO)
            print('built')
            return 0
        if a.replay:
            return replay(a.replay, REPO, base)
        if a.determinism:
            return determinism(a.prop, a.seed, a.runs or 200, REPO, base)
        if len(a.prop) != 1 or a.prop[0] not in gen.PROFILES:
            print('usage: check.py PROP; PROP is one of ' + ' '.join(sorted(gen.PROFILES)))
            return 2
        if a.print is not None:
            sys.stdout.write(to_text(gen.scenario(a.prop[0], a.seed, a.print, a.tier)))
            return 0
        return check(a.prop[0], a.tier, a.seed, a.runs, a.start, a.jobs, REPO, base)
    except CheckError as e:
        print('ERROR: ' + str(e))
        return 2
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
