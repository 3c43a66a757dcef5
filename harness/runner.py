# coding: utf-8
"""Runs models and trace validation: TLC -> scenarios -> real code -> recorded traces -> TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
REPO = os.environ.get('UTG_REPO', '/repo')
PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else 'python3'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = min(8, os.cpu_count() or 2)


class MachineError(Exception):
    pass


def java(extra, heap, props=()):
    return ['java', '-XX:+UseSerialGC', '-Xss16m', '-Xmx%s' % heap, '-XX:TieredStopAtLevel=4', '-cp', JARS,
            *props, 'tlc2.TLC', *extra]


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='utg-verif-')
        return self.path

    def __exit__(self, *_):
        shutil.rmtree(self.path, ignore_errors=True)


STATES = re.compile(r'^(\d+) states generated, (\d+) distinct states found', re.M)
ALL_STATES = re.compile(r'^Progress.*?: ([\d,]+) states generated')


def run_tlc(module, scratch, env=None, heap='2g', workers=1, timeout=600, args=(), config=None):
    """Runs a module of spec/; returns (output, states generated, distinct states)."""
    meta = tempfile.mkdtemp(prefix='meta-', dir=scratch)
    cmd = java(['-config', config or module + '.cfg', '-metadir', meta, '-workers', str(workers),
                '-noGenerateSpecTE', '-lncheck', 'final', *args, module + '.tla'], heap)
    full = dict(os.environ, **(env or {}))
    try:
        done = subprocess.run(cmd, cwd=SPEC, env=full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              timeout=timeout, text=True, encoding='utf-8', errors='replace')
    except subprocess.TimeoutExpired as e:
        raise MachineError('TLC did not finish %s within %d s' % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    found = STATES.findall(done.stdout)
    gen, dist = (int(found[-1][0]), int(found[-1][1])) if found else (0, 0)
    return done.stdout, gen, dist, done.returncode


def prove(module, scratch, timeout=300):
    """Checks the proofs of a module with tlapm; returns the number of obligations, None where there is no tlapm."""
    if not shutil.which('tlapm'):
        return None
    place = tempfile.mkdtemp(prefix='proofs-', dir=scratch)
    for name in ('Abstract.tla', module + '.tla'):
        shutil.copy(os.path.join(SPEC, name), place)
    try:
        done = subprocess.run(['tlapm', '--threads', str(min(4, CORES)), module + '.tla'], cwd=place,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        return None
    found = re.search(r'All (\d+) obligations? proved', done.stdout)
    if done.returncode != 0 or not found:
        raise MachineError('the proofs of %s do not hold:\n%s' % (module, done.stdout[-2000:]))
    return int(found.group(1))


class Model:
    def __init__(self, name, scenarios, prelude, transitions, states):
        self.name, self.scenarios, self.prelude, self.transitions, self.states = (
            name, scenarios, prelude, transitions, states)


def run_model(module, scratch, config=None, workers=4, timeout=600, env=None, heap='6g'):
    """Checks a model (its invariants hold) and returns its printed scenarios and statistics."""
    out, gen, dist, rc = run_tlc(module, scratch, workers=workers, timeout=timeout, config=config, env=env,
                                 heap=heap)
    if rc != 0 or 'No error has been found' not in out:
        tail = '\n'.join(l for l in out.splitlines() if not l.startswith('"'))[-3000:]
        raise MachineError('model %s is not correct:\n%s' % (config or module, tail))
    printed, prelude = [], []
    for line in out.splitlines():
        if line.startswith('"EMIT '):
            printed.append(json.loads(tlc_string(line)[5:]))
        elif line.startswith('"PRELUDE '):
            prelude = json.loads(tlc_string(line)[8:])
    printed.sort(key=json.dumps)  # workers print in any order
    return Model(module, printed, prelude, gen, dist)


def tlc_string(line):
    # TLC prints a string with \" and \\ escaped
    body = line[1:line.rindex('"')]
    return body.replace('\\"', '"').replace('\\\\', '\\')


class Failure:
    def __init__(self, session, index, event, fields, want, got, lines=()):
        self.session, self.index, self.event, self.fields, self.want, self.got = (
            session, index, event, fields, want, got)
        self.lines = lines  # the trace of the session up to the event

    def earlier(self):
        """Earlier recorded events of the session."""
        return [json.loads(x) for x in self.lines]


class Conformance:
    """Executes sessions on the real code and validates the recorded traces with TLC."""

    def __init__(self, scratch, seed, timeout=700):
        self.scratch, self.seed, self.timeout = scratch, seed, timeout
        self.failures, self.events, self.sessions, self.states = [], 0, 0, 0
        self.lock = threading.Lock()
        self.broken = None
        self.samples = []

    def cost(self, session):
        return sum(1 + len(json.dumps(e)) / 400 for e in session['events'])

    def run(self, sessions, per_shard=600):
        if not sessions:
            return
        costs = [max(1, int(self.cost(s))) for s in sessions]
        total = sum(costs)
        n = max(1, min(CORES, total // per_shard + 1))
        shards = [[] for _ in range(n)]
        loads = [0] * n
        for c, i in sorted(((c, i) for i, c in enumerate(costs)), reverse=True):
            k = loads.index(min(loads))
            loads[k] += c
            shards[k].append(i)
        threads = []
        errors = []

        def work(k, part):
            try:
                self.shard(k, part)
            except Exception as e:  # reported after all shards are done
                errors.append(e)
        tag = '%x' % (time.time_ns() & 0xffffff)
        for k, idx in enumerate(shards):
            if idx:
                t = threading.Thread(target=work, args=('%s-%d' % (tag, k), [sessions[i] for i in sorted(idx)]))
                t.start()
                threads.append(t)
        for t in threads:
            t.join()
        if errors:
            raise errors[0]

    def shard(self, k, sessions):
        src = os.path.join(self.scratch, 'events-%s.ndjson' % k)
        dst = os.path.join(self.scratch, 'trace-%s.ndjson' % k)
        where = []
        with open(src, 'w') as f:
            for n, s in enumerate(sessions):
                # some sessions begin with a library loaded anew; the last ones share a long history
                fresh = s.get('fresh') or (n % 3 == 0 and 3 * n < len(sessions))
                f.write('{"op": "reset", "fresh": %s}\n' % ('true' if fresh else 'false'))
                where.append((s, -1))
                for i, ev in enumerate(s['events']):
                    f.write(json.dumps(ev) + '\n')
                    where.append((s, i))
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8')
        # every part runs under another seed of hashes, every other one as "python -O"
        variant = sessions[0].get('variant', self.seed * 100 + int(k.split('-')[-1]))
        for s in sessions:
            s['variant'] = variant
        env['PYTHONHASHSEED'] = str(variant % 2**32)
        flags = ['-B', '-O'] if variant % 2 else ['-B']
        problem = None
        try:
            done = subprocess.run([PYTHON, *flags, os.path.join(HERE, 'interp.py'), src, dst, str(self.seed)],
                                  cwd=self.scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                  timeout=self.timeout, text=True, errors='replace')
            if done.returncode != 0:
                problem = done.stdout[-1500:]
        except subprocess.TimeoutExpired:
            problem = 'the library did not finish the scenarios within %d s' % self.timeout
        log = []
        if os.path.exists(dst):
            with open(dst) as f:
                log = f.read().split('\n')
        if problem:
            with self.lock:
                self.broken = self.broken or (problem, where[min(len(log), len(where)) - 1])
            return
        start = 0
        while start < len(where):
            out, gen, dist, rc = run_tlc('Trace', self.scratch, env={'UTG_TRACE': dst}, heap='2500m',
                                         timeout=self.timeout)
            n, done, fails = 0, None, []
            for line in out.splitlines():
                if line.startswith('"FAIL '):
                    fails.append(json.loads(tlc_string(line)[5:]))
                elif line.startswith('"DONE '):
                    done = int(tlc_string(line)[5:])
            with self.lock:
                for x in fails:
                    s, i = where[start + x['n'] - 1]
                    ev = json.loads(log[start + x['n'] - 1])
                    at = start + x['n'] - 1
                    self.failures.append(Failure(s, i, ev, x['bad'], x['want'], ev['res'], log[at - max(i, 0):at]))
                self.states += gen
            if done is not None:
                break
            # TLC stopped: a result of a shape that cannot be compared with the specification's
            reached = max(gen, 1)  # states generated = events followed + 1
            if 'Parsing or semantic analysis failed' in out or reached > len(where) - start:
                raise MachineError('trace validation failed:\n' + out[-3000:])
            n = start + reached - 1
            s, i = where[n]
            with self.lock:
                self.failures.append(Failure(s, i, json.loads(log[n]), ['tlc'], out[-1500:], json.loads(log[n])['res']))
                if len([f for f in self.failures if f.fields == ['tlc']]) > 20:
                    return
            # go on with the next session
            n += 1
            while n < len(where) and where[n][1] != -1:
                n += 1
            start = n
            with open(dst, 'w') as f:
                f.write('\n'.join(log[start:]))
        with self.lock:
            self.events += len(where) - len(sessions)
            self.sessions += len(sessions)
            if len(self.samples) < 4 and log:
                cut = [l for l in log[:40] if l and '"reset"' not in l]
                self.samples.append([json.loads(l) for l in cut[:3]])
        os.unlink(src)
        os.unlink(dst)
