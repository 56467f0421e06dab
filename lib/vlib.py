"""The driver every check shares: run cases against the code in /repo, have TLC
judge the recorded traces, report, and write the evidence file."""
import hashlib
import json
import os
import random
import re
import shutil
import signal
import struct
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LCP_REPO', '/repo')
SPEC = os.path.join(ROOT, 'spec')
BUILD = os.path.join(ROOT, 'build')
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
WORKERS = int(os.environ.get('LCP_WORKERS', '7'))


# ----------------------------------------------------------------- encoding
def real(x):
    """A double as the two signed 32-bit halves of its bits (see spec/R64.tla)."""
    return list(struct.unpack('>ii', struct.pack('>d', float(x))))


def unreal(p):
    return struct.unpack('>d', struct.pack('>ii', *p))[0]


def readable(o):
    """Decode the reals in a record, to print it."""
    if isinstance(o, dict):
        return {k: readable(v) for k, v in o.items()}
    if isinstance(o, list):
        if len(o) == 2 and all(type(i) is int for i in o) and (abs(o[0]) > 10**6 or o == [0, 0]):
            return unreal(o)
        return [readable(v) for v in o]
    return o


# --------------------------------------------------------------- running TLC
class MachineryError(Exception):
    pass


def ensure_build():
    cls = os.path.join(BUILD, 'R64.class')
    src = os.path.join(ROOT, 'java', 'R64.java')
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        tmp = os.path.join(BUILD, 'tmp%d' % os.getpid())
        os.makedirs(tmp, exist_ok=True)
        subprocess.run(['javac', '-nowarn', '-cp', JAR, '-d', tmp, src], check=True)
        os.replace(os.path.join(tmp, 'R64.class'), cls)
        shutil.rmtree(tmp)


def tlc_start(module, cfg=None, env=None, workers=1, outdir=None, extra=(), heap='2g'):
    """Start TLC on spec/<module>.tla; returns a handle for tlc_wait."""
    meta = os.path.join(outdir, 'states-%s-%d-%s' % (module, os.getpid(),
                                                     hashlib.md5(repr((cfg, env, extra)).encode()).hexdigest()[:8]))
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss64m',
           '-Djava.io.tmpdir=' + outdir,
           '-cp', ':'.join([BUILD, JAR, CM]), 'tlc2.TLC',
           '-config', os.path.join(SPEC, cfg or module + '.cfg'), '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', *extra, os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    out = open(meta + '.log', 'w+')
    p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, env=e, cwd=SPEC,
                         start_new_session=True)
    return p, out, meta, module


def tlc_wait(h, timeout=600):
    p, out, meta, module = h
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise MachineryError('TLC timed out on ' + module)
    out.seek(0)
    text = out.read()
    out.close()
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', text)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    m = re.search(r'depth of the complete state graph search is (\d+)', text)
    return {'rc': p.returncode, 'text': text, 'generated': gen, 'distinct': dist,
            'depth': int(m.group(1)) if m else 0, 'log': meta + '.log'}


def tlc(module, **kw):
    timeout = kw.pop('timeout', 600)
    return tlc_wait(tlc_start(module, **kw), timeout)


# ------------------------------------------- running cases against /repo code
class Timeout(Exception):
    pass


def crash(case_id, msg):
    return {'k': 'crash', 'id': case_id, 'msg': str(msg)[-1500:]}


def _worker(check, cases, todo, path, limit):
    """Runs in a forked child; results go line by line to a file."""
    os.environ['PYTHONHASHSEED'] = '0'
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('LCP_DEBUG'):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    f = open(path, 'a')
    state = {'timed': False, 'lost': None}

    def on_alarm(sig, frame):
        state['timed'] = True
        raise Timeout('no result within %s s' % limit)

    def on_unraisable(u):
        if u.exc_value is not None and state['lost'] is None:
            state['lost'] = 'exception lost in a callback: ' + ''.join(
                traceback.format_exception(u.exc_type, u.exc_value, u.exc_traceback))
    signal.signal(signal.SIGALRM, on_alarm)
    sys.unraisablehook = on_unraisable
    for i in todo:
        case = cases[i]
        f.write('start %d\n' % i)
        f.flush()
        state['timed'], state['lost'] = False, None
        try:
            random.seed(json.dumps(case, sort_keys=True, default=str))
            signal.setitimer(signal.ITIMER_REAL, limit, 0.5)
            recs = check.run_case(case)
            signal.setitimer(signal.ITIMER_REAL, 0)
            if state['timed']:
                recs = [crash(case['id'], 'no result within %s s' % limit)]
            elif state['lost'] is not None:
                recs = [crash(case['id'], state['lost'])]
        except Exception as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            tb = traceback.extract_tb(e.__traceback__)
            where = tb[-1].filename if tb else ''
            msg = traceback.format_exc()
            if isinstance(e, (AttributeError, ImportError, NameError, MachineryError)) and \
                    where.startswith(ROOT + os.sep):
                recs = [{'k': 'machinery', 'id': case['id'], 'msg': msg[-1500:]}]
            else:
                recs = [crash(case['id'], ('hang: ' if state['timed'] else '') + msg)]
        for r in recs:
            r.setdefault('id', case['id'])
            r['case'] = i
        f.write('done %d %s\n' % (i, json.dumps(recs)))
        f.flush()
    f.close()
    os._exit(0)


class Lost(Exception):
    """An exception of the code under test in a process of its own."""


def apart(fn):
    """What fn returns (as JSON) in a process of its own, which leaves nothing behind in this one."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        lost = []
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(r)
            sys.unraisablehook = lambda u: lost.append(''.join(traceback.format_exception(u.exc_type, u.exc_value, u.exc_traceback)))
            try:
                out = {'ok': fn()}
            except BaseException as e:
                out = {'lost': traceback.format_exc(), 'kind': type(e).__name__}
            if lost:
                out = {'lost': 'exception lost in a callback: ' + lost[0], 'kind': 'Lost'}
            with os.fdopen(w, 'w') as f:
                json.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r) as f:
            text = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    out = json.loads(text) if text else {'lost': 'the process ended', 'kind': 'Lost'}
    if 'ok' in out:
        return out['ok']
    raise Lost(out['lost'])


def run_cases(check, cases, outdir, limit):
    """All cases on WORKERS forked processes; a process that dies or does not
    come back costs the case it was at, which is recorded as a crash."""
    results = [None] * len(cases)
    jobs = {}
    queues = [list(range(w, len(cases), WORKERS)) for w in range(WORKERS)]

    def start(w):
        path = os.path.join(outdir, 'worker-%d.log' % w)
        if os.path.exists(path):
            os.unlink(path)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                _worker(check, cases, queues[w], path, limit)
            finally:
                os._exit(7)
        jobs[w] = [pid, path, 0, time.time()]

    def collect(w):
        pid, path, _, _ = jobs[w]
        last = None
        if os.path.exists(path):
            for line in open(path):
                if line.startswith('start '):
                    last = int(line.split()[1])
                elif line.startswith('done ') and line.endswith('\n'):
                    _, i, rest = line.split(' ', 2)
                    results[int(i)] = json.loads(rest)
                    last = None
        return last

    for w in range(WORKERS):
        if queues[w]:
            start(w)
    while jobs:
        time.sleep(0.02)
        for w in list(jobs):
            pid, path, size, since = jobs[w]
            done, status = os.waitpid(pid, os.WNOHANG)
            now = os.path.getsize(path) if os.path.exists(path) else 0
            if now != size:
                jobs[w][2:] = [now, time.time()]
            elif not done and time.time() - since > limit * 2 + 20:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                done, status = pid, -9
            if done:
                last = collect(w)
                if last is not None:
                    results[last] = [dict(crash(cases[last]['id'], 'the process ended (status %s) '
                                                'or did not come back' % status), case=last)]
                elif status != 0 and all(r is None for r in (results[i] for i in queues[w])):
                    raise MachineryError('a worker failed at once')
                del jobs[w]
                queues[w] = [i for i in queues[w] if results[i] is None]
                if queues[w]:
                    start(w)
    return [r for rs in results for r in (rs or [])]


def judge(module, records, outdir, chunks=1, env=None, timeout=800, cfg=None):
    """Have TLC judge the records; returns broken clauses, hits and counts."""
    n = max(1, min(chunks, len(records)))
    size = (len(records) + n - 1) // n
    parts = [records[i:i + size] for i in range(0, len(records), size)]
    hs = []
    for i, part in enumerate(parts):
        path = os.path.join(outdir, 'trace-%s-%d.json' % (module, i))
        with open(path, 'w') as f:
            json.dump(part, f)
        e = {'TRACE': path}
        e.update(env or {})
        hs.append((path, part, tlc_start(module, cfg=cfg, env=e, outdir=outdir)))
    bad, hits, gen, dist = [], {}, 0, 0
    for path, part, h in hs:
        r = tlc_wait(h, timeout)
        done = re.search(r'^"?DONE (\d+)"?$', r['text'], re.M)
        if not done or int(done.group(1)) != len(part) or r['rc'] != 0:
            raise MachineryError('TLC did not judge the whole trace %s (see %s):\n%s'
                                 % (path, r['log'], r['text'][-3000:]))
        for m in re.finditer(r'^"?BAD (\d+) (.*?)"?$', r['text'], re.M):
            bad.append((part[int(m.group(1)) - 1], m.group(2)))
        for m in re.finditer(r'^"?HIT (\d+) (.*?)"?$', r['text'], re.M):
            hits[m.group(2)] = hits.get(m.group(2), 0) + int(m.group(1))
        gen += r['generated']
        dist += r['distinct']
    return bad, hits, gen, dist


def behaviours(module, cfg, outdir, env=None, timeout=300, extra=(), tag='BEH'):
    """The behaviours a model prints (as JSON after the word BEH), and TLC's counts."""
    r = tlc(module, cfg=cfg, env=env, outdir=outdir, timeout=timeout, extra=('-deadlock',) + tuple(extra))
    if r['rc'] != 0 or ('No error has been found' not in r['text'] and '-simulate' not in extra):
        raise MachineryError('the model %s fails:\n%s' % (cfg, r['text'][-3000:]))
    out = []
    for line in r['text'].splitlines():
        if line.startswith('"' + tag + ' '):
            out.append(json.loads(json.loads(line)[len(tag) + 1:]))
    if not out:
        raise MachineryError('the model %s printed no behaviour' % cfg)
    return out, {'model': cfg, 'states': r['distinct'], 'transitions': r['generated'], 'depth': r['depth'],
                 'behaviours': len(out)}


# ------------------------------------------------------------------ the check
def known_findings():
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    out = []
    for line in open(path) if os.path.exists(path) else ():
        m = re.match(r'finding: property=(\S+) case=(\S+) clause="([^"]*)" (.*)', line.strip())
        if m:
            out.append(m.groups())
    return out


class Check:
    """One property. Subclasses give cases(rng, tier), run_case(case) and module."""
    id = None
    module = None        # the spec that judges the traces
    level = 'exploration'
    limit = 30           # seconds one case may take
    chunks = 4
    rule = ''
    technique = 'TLA+ specification, TLC trace validation of recorded executions'
    note = ''
    assumptions = []
    models = ()          # (module, cfg) design models TLC checks exhaustively
    models_thorough = ()

    def cases(self, rng, tier):
        raise NotImplementedError

    def run_case(self, case):
        raise NotImplementedError

    def trivial(self, rec):
        return False

    def describe(self, case):
        return case

    def main(self, argv):
        t0 = time.time()
        tier = os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        replay = None
        if '--replay' in argv:
            replay = json.load(open(argv[argv.index('--replay') + 1]))
        outdir = os.path.join(ROOT, 'out', self.id)
        shutil.rmtree(outdir, ignore_errors=True)
        os.makedirs(outdir)
        self.outdir, self.tier, self.seed = outdir, tier, seed
        try:
            rc = self._run(t0, tier, seed, outdir, replay)
        except MachineryError as e:
            print('ERROR property=%s %s' % (self.id, e))
            rc = 2
        sys.exit(rc)

    def _run(self, t0, tier, seed, outdir, replay):
        ensure_build()
        rng = random.Random('%s/%s' % (self.id, seed))
        # the design models run while the cases do
        hs = []
        if not replay:
            for module, cfg in tuple(self.models) + (tuple(self.models_thorough) if tier == 'thorough' else ()):
                hs.append((module, cfg, tlc_start(module, cfg=cfg, outdir=outdir, workers=2,
                                                  extra=('-deadlock',) if 'deadlock' not in cfg else ())))
        if replay:
            cases = [replay['case']]
        else:
            cases = list(self.cases(rng, tier))
        ids = set()
        for i, c in enumerate(cases):
            c.setdefault('id', 'case%d' % i)
            assert c['id'] not in ids, c['id']
            ids.add(c['id'])
        recs = run_cases(self, cases, outdir, self.limit)
        mach = [r for r in recs if r['k'] == 'machinery']
        if mach:
            raise MachineryError('%s\n%s' % (mach[0]['id'], mach[0]['msg']))
        if not recs:
            raise MachineryError('no records')
        t1 = time.time()
        bad, hits, gen, dist = judge(self.module, recs, outdir, self.chunks)
        t2 = time.time()
        mstates = list(getattr(self, 'generated', ()))
        for module, cfg, h in hs:
            r = tlc_wait(h, 800)
            if r['rc'] != 0 or 'No error has been found' not in r['text']:
                raise MachineryError('the design model %s/%s fails:\n%s' % (module, cfg, r['text'][-3000:]))
            mstates.append({'model': cfg, 'states': r['distinct'], 'transitions': r['generated'],
                            'depth': r['depth']})
        return self.report(t0, tier, seed, cases, recs, bad, hits, gen, dist, mstates,
                           {'cases_s': round(t1 - t0, 1), 'judge_s': round(t2 - t1, 1)}, outdir)

    def report(self, t0, tier, seed, cases, recs, bad, hits, gen, dist, mstates, times, outdir):
        known = [k for k in known_findings() if k[0] == self.id]
        fresh, seen = [], set()
        for rec, clause in bad:
            for k in known:
                if k[1] == rec['id'] and k[2] == clause:
                    if k not in seen:
                        seen.add(k)
                        print('KNOWN-FINDING: property=%s %s' % (self.id, k[3]))
                    break
            else:
                fresh.append((rec, clause))
        nontrivial = set()
        for r in recs:
            if r['k'] != 'crash' and not self.trivial(r):
                b = {k: v for k, v in r.items() if k not in ('id', 'case')}
                nontrivial.add(hashlib.md5(json.dumps(b, sort_keys=True).encode()).hexdigest())
        cov = {'evaluations': len(recs), 'distinct_nontrivial': len(nontrivial), 'rule': self.rule,
               'cases': len(cases), 'clauses_exercised': hits,
               'samples': [readable_sample(r) for r in recs[:1] + recs[len(recs) // 2:len(recs) // 2 + 1]],
               'states': dist + sum(m['states'] for m in mstates),
               'transitions': gen + sum(m['transitions'] for m in mstates),
               'traces_validated_against_impl': len(cases),
               'design_models': mstates, 'times': times}
        cov.update(getattr(self, 'extra_coverage', {}))
        ev = {'property': self.id, 'tier': tier, 'seed': seed, 'level': self.level, 'coverage': cov,
              'assumptions': list(self.assumptions), 'wall_s': round(time.time() - t0, 2),
              'violations': len(fresh)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        # a trace that is kept would fill the disk; what a violation needs is in its replay file
        for name in os.listdir(outdir):
            if name.startswith('trace-') or name.startswith('worker-'):
                if not os.environ.get('LCP_KEEP'):
                    os.unlink(os.path.join(outdir, name))
        print('%s %s seed=%d: %d cases, %d records, %d clauses hit, %.1f s' % (
            self.id, tier, seed, len(cases), len(recs), len(hits), time.time() - t0))
        if fresh:
            by_case = {}
            for rec, clause in fresh:
                by_case.setdefault(rec['case'], []).append((rec, clause))
            path = os.path.join(outdir, 'violation.json')
            first = next(iter(by_case))
            with open(path, 'w') as f:
                json.dump({'property': self.id, 'case': cases[first],
                           'broken': [{'clause': c, 'record': readable(r)} for r, c in by_case[first]],
                           'others': sorted({(r['id'], c) for r, c in fresh})[:200],
                           'rerun': 'cd %s && ./run.sh %s --replay %s' % (ROOT, self.id, path)},
                          f, indent=1)
            for rec, clause in fresh[:10]:
                print('  broken: %s [%s]%s' % (clause, rec['id'],
                                              ' ' + rec['msg'].strip().splitlines()[-1][:200]
                                              if rec['k'] == 'crash' else ''))
            print('VIOLATION property=%s replay=%s' % (self.id, path))
            return 1
        return 0


def readable_sample(r):
    s = readable(r)
    t = json.dumps(s)
    return s if len(t) < 4000 else t[:4000]
