#!/usr/bin/env python3
"""Runs the monitors of one property.

usage: check.py PROPERTY [--tier quick|thorough] [--seed N] [--keep] [--cases-scale F]

Builds the harnesses it needs from /repo's current tree in a scratch directory,
runs them in shards, collects what the monitors reported, matches violations
against known_findings.json and writes evidence/PROPERTY.json.

exit 0: held on everything explored; exit 1: VIOLATION line printed; exit 3:
the check itself could not give an answer.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
sys.path.insert(0, VERIF)
from plan import PLAN  # noqa: E402

NPROC = max(2, min(8, os.cpu_count() or 4))


class HarnessError(Exception):
    pass


class DoesNotCompile(Exception):
    """A program that uses only the public interface is no longer accepted."""
    def __init__(self, job, cmd, err):
        super().__init__(err)
        self.job, self.cmd, self.err = job, cmd, err


def sh(cmd, timeout, cwd=None, env=None):
    """Run a command in its own process group; (rc, out, err, timed_out)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         start_new_session=True, text=True, errors='replace')
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return p.returncode, out, err, True


def compile_one(job, bdir):
    exe = os.path.join(bdir, job['name'])
    cxx = job.get('cxx', 'g++')
    base = [cxx, '-std=c++20', '-w', '-I' + os.path.join(REPO, 'include'), '-I' + HARNESS]
    src = [os.path.join(HARNESS, job['src'])]
    cmd = base + job['flags'] + src + ['-o', exe] + job.get('libs', [])
    rc, out, err, to = sh(cmd, 800)
    first = err
    for more in job.get('fallback', []):
        if rc != 1 or to:
            break
        rc, out, err, to = sh(cmd + more, 800)
    if rc == 1:
        err = first
    if rc != 0 and not to and rc == 1 and job.get('public', True) and ': error: ' in err and 'internal compiler error' not in err:
        raise DoesNotCompile(job['name'], ' '.join(cmd), err)
    if rc != 0:
        raise HarnessError('compiling %s failed (%s):\n%s' % (job['src'], ' '.join(cmd), err[-3000:]))
    return exe


SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=77:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1:check_initialization_order=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=77',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=77:second_deadlock_stack=1',
    'LSAN_OPTIONS': 'exitcode=77',
}


def read_progress(path):
    try:
        with open(path, 'rb') as f:
            b = f.read(16)
        v = int.from_bytes(b[:8], 'little')
        ph = int.from_bytes(b[8:16], 'little')
        return (None if v == (1 << 64) - 1 else v), ph
    except OSError:
        return None, 0


def crash_key(rc, err):
    m = re.search(r'(AddressSanitizer|LeakSanitizer|ThreadSanitizer|MemorySanitizer): ([a-zA-Z-]+)', err)
    if m:
        return '%s: %s' % (m.group(1), m.group(2))
    m = re.search(r'runtime error: (.*)', err)
    if m:
        return 'UndefinedBehavior: ' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1))[:120]
    m = re.search(r'^==\d+== (Invalid [a-z ]+ of size|Conditional jump|Use of uninitialised|Source and destination|Mismatched|Invalid free|[A-Za-z ]*uninitialised)', err, re.M)
    if m and rc == 77:
        return 'valgrind: ' + m.group(1)
    m = re.search(r'(/[a-z_]+[a-z_.+]*):\d+:.*Assertion .(.{1,80})', err) or re.search(r'(Error): (attempt to [a-z ]+)', err)
    if m and rc == -6:
        return 'library check: ' + m.group(2)
    m = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
    if m:
        return 'terminate: ' + m.group(1)
    if 'terminate called' in err:
        return 'terminate'
    if rc < 0:
        return 'crash: signal %d' % -rc
    return 'crash: exit status %d' % rc


class Runner:
    def __init__(self, prop, tier, seed, scale, bdir):
        self.prop, self.tier, self.seed, self.scale, self.bdir = prop, tier, seed, scale, bdir
        self.viols = []      # {key, detail, replay cmd}
        self.runs = []
        self.ctr, self.samples, self.sigs = {}, [], set()
        self.evals = self.nontrivial = 0
        self.exes = {}
        self.notes = []

    def env(self, job):
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.update(job.get('env', {}))
        return e

    def args_for(self, job, mode, cases, shard, nshards, prog):
        a = ['--mode=' + mode, '--prop=' + self.prop, '--seed=%d' % self.seed, '--cases=%d' % cases,
             '--shard=%d' % shard, '--nshards=%d' % nshards, '--progress=' + prog]
        if self.tier == 'thorough':
            a.append('--thorough')
        return a + job.get('args', [])

    def absorb(self, out, job, mode):
        got = False
        for line in out.splitlines():
            if line.startswith('VIOL '):
                try:
                    d = json.loads(line[5:])
                except ValueError:
                    d = {'case': -1, 'key': 'unparsed', 'detail': line[:2000]}
                self.viols.append({'key': d['key'], 'detail': d['detail'], 'case': d['case'], 'job': job['name'], 'mode': mode})
            elif line.startswith('STATS '):
                d = json.loads(line[6:])
                got = True
                self.evals += d['evals']
                self.nontrivial += d['nontrivial']
                for k, n in d['ctr'].items():
                    self.ctr[k] = self.ctr.get(k, 0) + n
                for s in d['samples']:
                    if len([x for x in self.samples if x['mode'] == mode]) < 2:
                        self.samples.append({'mode': mode, 'case': s})
                self.sigs.update(mode + s for s in d['sigs'])
        return got

    def run_shard(self, item):
        job, mode, cases, shard, nshards = item
        prog = os.path.join(self.bdir, 'prog-%s-%s-%d' % (job['name'], mode, shard))
        exe = self.exes[job['name']]
        limit = job.get('timeout', 420 if self.tier == 'quick' else 3000)
        rc, out, err, to = sh(job.get('wrap', []) + [exe] + self.args_for(job, mode, cases, shard, nshards, prog), limit, cwd=self.bdir, env=self.env(job))
        res = {'item': item, 'out': out, 'viol': None}
        if to or rc != 0:
            case, phase = read_progress(prog)
            if case is None:
                if rc == 3 or to:
                    raise HarnessError('%s --mode=%s gave no result (exit %s): %s' % (job['name'], mode, rc, err[-1500:]))
                case = 0
            # repeat the case alone, to confirm and to obtain the report
            lim2 = job.get('case_timeout', 120)
            rc2, out2, err2, to2 = sh(job.get('wrap', []) + [exe] + self.args_for(job, mode, cases, shard, nshards, prog + '-r') + ['--only=%d' % case], lim2, cwd=self.bdir, env=self.env(job))
            if to:
                if to2:
                    res['viol'] = {'key': 'hang', 'case': case, 'detail': 'case did not finish within %d s (twice)' % lim2}
                else:
                    raise HarnessError('%s --mode=%s shard %d ran out of time, but its last case %d finishes on its own' % (job['name'], mode, shard, case))
            else:
                e = err2 if (rc2 != 0 and not to2) else err
                c = rc2 if (rc2 != 0 and not to2) else rc
                if phase == 1 and rc == 77 and 'LeakSanitizer' in err:
                    e, c = err, rc
                res['viol'] = {'key': crash_key(c, e), 'case': case, 'detail': (e[:5000] + ('\n...\n' + err[:1500] if e is not err else ''))}
        return res

    def run(self):
        plan = PLAN[self.prop]
        jobs = plan['jobs']
        with ThreadPoolExecutor(NPROC) as ex:
            for job, exe in zip(jobs, ex.map(lambda j: self.compile(j), jobs)):
                self.exes[job['name']] = exe
        items = []
        for job in jobs:
            for mode, q, t in job['modes']:
                cases = int((q if self.tier == 'quick' else t) * self.scale)
                if cases <= 0:
                    continue
                n = min(job.get('shards', NPROC), max(1, cases))
                for s in range(n):
                    items.append((job, mode, cases, s, n))
        with ThreadPoolExecutor(NPROC) as ex:
            results = list(ex.map(self.run_shard, items))
        for r in results:
            job, mode = r['item'][0], r['item'][1]
            got = self.absorb(r['out'], job, mode)
            if r['viol']:
                v = r['viol']
                v.update(job=job['name'], mode=mode)
                self.viols.append(v)
            elif not got:
                raise HarnessError('%s --mode=%s printed no statistics' % (job['name'], mode))

    def compile(self, job):
        if 'build' in job:   # special build step implemented in plan.py
            return job['build'](self, job)
        return compile_one(job, self.bdir)


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    with open(p) as f:
        data = json.load(f)
    return [k for k in data['findings'] if k['property'] == prop]


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--cases-scale', type=float, default=1.0)
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
    prop = a.prop
    plan = PLAN[prop]
    t0 = time.time()
    bdir = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        r = Runner(prop, a.tier, seed, a.cases_scale, bdir)
        try:
            r.run()
        except DoesNotCompile as e:
            first = next((l for l in e.err.splitlines() if ': error: ' in l), '')
            r.viols.append({'key': 'does-not-compile', 'detail': 'a program using the public interface no longer compiles: %s\n%s\n%s' % (first, e.cmd, e.err[:3000]), 'job': e.job, 'mode': '', 'case': -1})
        except HarnessError as e:
            if not r.viols:
                print('ERROR: %s' % e, file=sys.stderr)
                return 3
        # evidence must show that something was observed
        for c in plan.get('must_observe', []):
            if r.ctr.get(c, 0) <= 0 and not r.viols:
                print('ERROR: the workload never produced "%s"' % c, file=sys.stderr)
                return 3
        known = load_known(prop)
        new, matched = [], {}
        for v in r.viols:
            k = next((k for k in known if v['key'] == k['key'] and (not k.get('detail_regex') or re.search(k['detail_regex'], v['detail'], re.S))), None)
            if k is None:
                new.append(v)
            else:
                matched.setdefault(k['id'], []).append(v)
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        for f in glob.glob(os.path.join(rdir, prop + '-*.json')):
            os.unlink(f)
        ev = {
            'property': prop, 'tier': a.tier, 'seed': seed, 'level': plan.get('level', 'exploration'),
            'coverage': {
                'evaluations': r.evals, 'distinct_nontrivial': len(r.sigs), 'rule': plan['rule'],
                'samples': r.samples[:8], 'observed': r.ctr,
                'known_finding_occurrences': {k: len(v) for k, v in matched.items()},
                'runs': [{'harness': j['name'], 'flags': ' '.join(j.get('flags', [])),
                          'modes': [{'mode': m, 'cases': int((q if a.tier == 'quick' else t) * a.cases_scale)} for m, q, t in j['modes']]} for j in plan['jobs']],
            },
            'assumptions': plan.get('assumptions', []),
            'wall_s': round(time.time() - t0, 2), 'violations': len(new),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in known:
            n = len(matched.get(k['id'], []))
            print('KNOWN-FINDING: property=%s %s (%d occurrences in this run)' % (prop, k['summary'], n))
        print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1f s' %
              (prop, a.tier, seed, r.evals, len(r.sigs), len(new), time.time() - t0))
        if new:
            seen = {}
            for v in new:
                seen.setdefault(v['key'], v)
            for i, (key, v) in enumerate(list(seen.items())[:5]):
                path = os.path.join(rdir, '%s-%d.json' % (prop, i))
                job = next(j for j in plan['jobs'] if j['name'] == v['job'])
                with open(path, 'w') as f:
                    json.dump({'property': prop, 'key': key, 'detail': v['detail'], 'harness': job.get('src', v['job']),
                               'flags': job.get('flags', []),
                               'replay_args': ['--mode=' + v['mode'], '--prop=' + prop, '--seed=%d' % seed, '--only=%s' % v['case']] + (['--thorough'] if a.tier == 'thorough' else []) + job.get('args', []),
                               'tier': a.tier, 'seed': seed}, f, indent=1)
                print('  %s: %s' % (key, v['detail'][:600].replace('\n', ' | ')))
                print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        if r.evals == 0 or len(r.sigs) == 0:
            print('ERROR: nothing was observed', file=sys.stderr)
            return 3
        return 0
    finally:
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)
        else:
            print('kept', bdir)


if __name__ == '__main__':
    sys.exit(main())
