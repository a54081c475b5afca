"""Command line: python -m pbt.run PROPERTY [--tier T] [--replay FILE]."""
import argparse
import importlib
import json
import os
import pickle
import re
import select
import signal
import sys
import time
import traceback

from . import harness

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(VERIF, 'replays')
FINDINGS = os.path.join(VERIF, 'known_findings.json')
WALL_LIMIT = {'quick': 780, 'thorough': 6 * 3600}


def load_registry(prop):
    module = importlib.import_module('pbt.props.' + prop.lower())
    return module.REG


def load_findings(prop):
    if not os.path.exists(FINDINGS):
        return []
    with open(FINDINGS) as fp:
        entries = json.load(fp)['findings']
    return [x for x in entries
            if x['property'] == prop and x.get('status') == 'known']


def write_replay(prop, test, case, message, extra=None):
    os.makedirs(REPLAYS, exist_ok=True)
    text = harness.canonical(case)
    name = '{}-{}-{:08x}.json'.format(
        prop, re.sub(r'\W+', '_', test), harness.hash_int(text) & 0xffffffff)
    path = os.path.join(REPLAYS, name)
    data = {'property': prop, 'test': test, 'case': case, 'message': message}
    data.update(extra or {})
    with open(path, 'w') as fp:
        json.dump(data, fp, indent=1, sort_keys=True)
    return path


class Job(object):
    def __init__(self, test, count, seed):
        self.test = test
        self.count = count
        self.seed = seed
        self.recorder = harness.Recorder()
        self.pid = None
        self.fd = None
        self.data = b''

    def start(self):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)  # the code under test may print
                try:
                    result = harness.search(self.test, self.count, self.seed,
                                            self.recorder)
                except BaseException as exp:
                    result = {'test': self.test.name, 'error': ''.join(
                        traceback.format_exception(exp))}
                with os.fdopen(w, 'wb') as fp:
                    pickle.dump(result, fp)
            except BaseException:
                traceback.print_exc()
                code = 70
            finally:
                os._exit(code)
        os.close(w)
        self.pid = pid
        self.fd = r


def run_jobs(jobs, width, deadline):
    pending = list(jobs)
    running = {}
    results = []
    while pending or running:
        while pending and len(running) < width:
            job = pending.pop(0)
            job.start()
            running[job.fd] = job
        timeout = max(0.1, min(5.0, deadline - time.monotonic()))
        ready, _, _ = select.select(list(running), [], [], timeout)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            job = running[fd]
            if chunk:
                job.data += chunk
                continue
            os.close(fd)
            del running[fd]
            _, status = os.waitpid(job.pid, 0)
            result = None
            if job.data:
                try:
                    result = pickle.loads(job.data)
                except Exception as exp:
                    result = {'test': job.test.name, 'error': repr(exp)}
            if result is None:
                text = job.recorder.get()
                if os.WIFSIGNALED(status) and text is not None and (
                        os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT,
                                                signal.SIGBUS, signal.SIGFPE)):
                    result = {
                        'test': job.test.name, 'seed': job.seed,
                        'evaluations': 1, 'nontrivial': set(), 'labels': {},
                        'samples': [], 'error': None,
                        'failure': (json.loads(text),
                                    'the process died with signal {}'.format(
                                        os.WTERMSIG(status))),
                    }
                else:
                    result = {'test': job.test.name,
                              'error': 'worker ended with status {}'.format(
                                  status)}
            results.append(result)
        if time.monotonic() > deadline:
            for job in running.values():
                os.kill(job.pid, signal.SIGKILL)
                os.waitpid(job.pid, 0)
                results.append({'test': job.test.name,
                                'error': 'inconclusive: wall limit reached'})
            for job in pending:
                results.append({'test': job.test.name,
                                'error': 'inconclusive: not started'})
            break
    return results


def replay(reg, path):
    with open(path) as fp:
        data = json.load(fp)
    test = [t for t in reg.tests if t.name == data['test']][0]
    try:
        labels = harness.run_case(test, data['case'])
    except (Exception, harness.Hang) as exp:
        traceback.print_exc()
        print('VIOLATION property={} replay={}'.format(reg.prop, path))
        print('  ' + harness.describe(exp))
        return 1
    print('held: labels={}'.format(labels))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--test')
    ap.add_argument('--scale', type=float, default=1.0)
    args = ap.parse_args()
    started = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    import svgpy
    repo = os.environ.get('SVGPY_REPO', '/repo')
    if not svgpy.__file__.startswith(os.path.realpath(repo) + '/'):
        print('svgpy was not imported from {}: {}'.format(
            repo, svgpy.__file__), file=sys.stderr)
        return 3
    reg = load_registry(args.prop)
    assert reg.prop == args.prop
    if args.replay:
        return replay(reg, args.replay)

    shards = 8
    if tier == 'quick':
        shards = max(1, 8 // max(1, len(reg.tests)))
    jobs = []
    for i, test in enumerate(reg.tests):
        if args.test and test.name != args.test:
            continue
        count = test.quick if tier == 'quick' else test.thorough
        count = max(1, int(count * args.scale))
        for shard in range(shards):
            value = harness.hash_int('{}/{}/{}/{}'.format(
                seed, reg.prop, test.name, shard)) % (1 << 63)
            jobs.append(Job(test, max(1, count // shards), value))
    results = run_jobs(jobs, min(8, os.cpu_count() or 1),
                       time.monotonic() + WALL_LIMIT[tier])

    status = 0
    violations = 0
    per_test = {}
    reported = set()
    for r in results:
        if r.get('error'):
            status = 3
            print('ERROR property={} test={}: {}'.format(
                reg.prop, r['test'], r['error']), file=sys.stderr)
            continue
        t = per_test.setdefault(r['test'], {
            'evaluations': 0, 'nontrivial': set(), 'labels': {},
            'samples': []})
        t['evaluations'] += r['evaluations']
        t['nontrivial'] |= r['nontrivial']
        for k, v in r['labels'].items():
            t['labels'][k] = t['labels'].get(k, 0) + v
        t['samples'] = (t['samples'] + r['samples'])[:3]
        if r['failure'] is not None and r['test'] not in reported:
            reported.add(r['test'])
            case, message = r['failure']
            path = write_replay(reg.prop, r['test'], case, message,
                                {'seed': seed, 'tier': tier})
            violations += 1
            print('VIOLATION property={} replay={}'.format(reg.prop, path))
            print('  test={} {}'.format(r['test'], message))
    for entry in load_findings(reg.prop):
        probe = reg.probes.get(entry['id'])
        if probe is None:
            print('ERROR no probe for finding {}'.format(entry['id']),
                  file=sys.stderr)
            status = 3
            continue
        try:
            present = probe()
        except Exception as exp:
            present = True
            print('  (probe {} raised {})'.format(
                entry['id'], harness.describe(exp)))
        if present:
            print('KNOWN-FINDING: property={} {} ({})'.format(
                reg.prop, entry['what'], entry['id']))

    if violations:
        status = 1
    os.makedirs(EVIDENCE, exist_ok=True)
    evidence = {
        'property': reg.prop,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(t['evaluations'] for t in per_test.values()),
            'distinct_nontrivial': sum(len(t['nontrivial'])
                                       for t in per_test.values()),
            'rule': reg.rule,
            'samples': [{'test': k, 'case': s} for k, t in
                        sorted(per_test.items()) for s in t['samples'][:3]],
            'tests': {k: {'evaluations': t['evaluations'],
                          'distinct_nontrivial': len(t['nontrivial']),
                          'labels': t['labels']}
                      for k, t in sorted(per_test.items())},
        },
        'assumptions': reg.assumptions,
        'wall_s': round(time.monotonic() - started, 2),
        'violations': violations,
    }
    tmp = os.path.join(EVIDENCE, reg.prop + '.json.tmp')
    with open(tmp, 'w') as fp:
        json.dump(evidence, fp, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(EVIDENCE, reg.prop + '.json'))
    print('{} property={} tier={} seed={} evaluations={} nontrivial={} '
          'wall={:.1f}s'.format(
              'FAILED' if status else 'held', reg.prop, tier, seed,
              evidence['coverage']['evaluations'],
              evidence['coverage']['distinct_nontrivial'],
              evidence['wall_s']))
    return status


if __name__ == '__main__':
    sys.exit(main())
