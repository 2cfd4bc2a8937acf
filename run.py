#!/usr/bin/python3
"""Driver: run one property's monitors against /repo under Jython 2.7.

  run.py <PROPERTY> quick|thorough
  run.py --replay <replay file>

Exit 0: held on everything observed.  Exit 1 with VIOLATION lines: broken.
Exit 2: inconclusive (a monitor observed too little, a worker died, ...).
"""
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('BGLIB_REPO', '/repo')
JY = '/opt/jy/jy'
WATCHDOG = {'quick': 800.0, 'thorough': 5400.0}
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


def env():
    e = dict(os.environ)
    for k in ('PYTHONPATH', 'CLASSPATH', 'JYTHONPATH'):
        e.pop(k, None)
    e['JYTHONPATH'] = ':'.join(['/opt/bgsite', os.path.join(VERIF, 'jy'),
                                os.path.join(VERIF, 'stubs'), REPO])
    e['BGLIB_REPO'] = REPO
    e['PYTHONHASHSEED'] = '0'
    return e


def load_known():
    path = os.path.join(VERIF, 'known_findings.jsonl')
    known = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('{'):
                known.append(json.loads(line))
    return known


def run_workers(pid, tier, seed, nshards, scratch, extra=()):
    procs = []
    deadline = time.time() + WATCHDOG[tier]
    for shard in range(nshards):
        out = os.path.join(scratch, 'out%d.json' % shard)
        work = os.path.join(scratch, 'w%d' % shard)
        os.mkdir(work)
        err = open(os.path.join(scratch, 'err%d' % shard), 'wb')
        cmd = [JY, '-B', os.path.join(VERIF, 'jy', 'worker.py'), pid, tier,
               str(seed), str(shard), str(nshards), out] + list(extra)
        procs.append((subprocess.Popen(cmd, cwd=work, env=env(),
                                       stdin=subprocess.DEVNULL,
                                       stdout=err, stderr=err,
                                       start_new_session=True), out, err))
    problems, results = [], []
    for shard, (p, out, err) in enumerate(procs):
        try:
            p.wait(max(1.0, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            problems.append('worker %d: watchdog' % shard)
        err.close()
        if os.path.exists(out):
            results.append(json.load(open(out)))
        else:
            tail = open(err.name, 'rb').read()[-2000:].decode('utf8', 'replace')
            problems.append('worker %d gave no result (rc %s): %s'
                            % (shard, p.returncode, tail))
    return results, problems


def aggregate(results):
    agg = {'scenarios': {}, 'violations': [], 'known': {}, 'errors': [],
           'meta': {}}
    for r in results:
        agg['meta'] = r['meta']
        agg['errors'] += r['errors']
        agg['violations'] += r['violations']
        for k, v in r['known'].items():
            agg['known'][k] = agg['known'].get(k, 0) + v
        for name, s in r['scenarios'].items():
            a = agg['scenarios'].setdefault(
                name, {'cases': 0, 'evaluations': 0, 'events': {},
                       'states': set(), 'samples': [], 'floors': s['floors'],
                       'exhaustive': s['exhaustive'], 'cut': False,
                       'slowest': 0.0})
            a['cases'] += s['cases']
            a['evaluations'] += s['evaluations']
            a['cut'] = a['cut'] or s['cut']
            a['slowest'] = max(a['slowest'], s['slowest'])
            a['states'].update(s['states'])
            if len(a['samples']) < 2:
                a['samples'] += s['samples'][:2 - len(a['samples'])]
            for k, v in s['events'].items():
                a['events'][k] = a['events'].get(k, 0) + v
    return agg


def main(argv):
    if len(argv) == 3 and argv[1] == '--replay':
        return replay(argv[2])
    if len(argv) != 3 or argv[2] not in WATCHDOG:
        print(__doc__)
        return 2
    pid, tier = argv[1], argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='bgverif.')
    try:
        results, problems = run_workers(pid, tier, seed, JOBS, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    agg = aggregate(results)
    problems += agg['errors']

    known = [k for k in load_known()
             if k.get('status') == 'known' and k['property'] == pid]
    known_keys = dict((k['key'], k) for k in known)
    violations = []
    for v in agg['violations']:
        if v['key'] in known_keys:
            agg['known'][v['key']] = agg['known'].get(v['key'], 0) + 1
        else:
            violations.append(v)

    for name, s in sorted(agg['scenarios'].items()):
        for ev, floor in s['floors'].items():
            if s['events'].get(ev, 0) < floor:
                problems.append('scenario %s: event %r seen %d times, need %d'
                                % (name, ev, s['events'].get(ev, 0), floor))
    if not agg['scenarios']:
        problems.append('nothing ran')

    evdir = os.path.join(VERIF, 'evidence')
    rdir = os.path.join(evdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(os.path.join(rdir, pid + '-*.json')):
        os.unlink(old)

    meta = agg['meta']
    states = sum(len(s['states']) for s in agg['scenarios'].values())
    samples = []
    for name, s in sorted(agg['scenarios'].items()):
        for x in s['samples'][:1]:
            samples.append({'scenario': name, 'case': x})
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(s['evaluations']
                               for s in agg['scenarios'].values()),
            'distinct_nontrivial': states,
            'rule': meta.get('rule', ''),
            'samples': samples[:12] or ['none'],
            'scenarios': dict(
                (n, {'cases': s['cases'], 'oracle_evaluations': s['evaluations'],
                     'distinct_states': len(s['states']),
                     'events': s['events'],
                     'time_capped': s['cut'],
                      'slowest_case_s': round(s['slowest'], 2),
                     'enumerated_completely': bool(s['exhaustive'] and not s['cut'])})
                for n, s in agg['scenarios'].items()),
            'known_findings_observed': agg['known'],
            'problems': problems,
        },
        'assumptions': meta.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')

    for k in known:
        print('KNOWN-FINDING: property=%s %s (seen %d times in this run)'
              % (pid, k['what'], agg['known'].get(k['key'], 0)))
    if violations:
        seen = set()
        n = 0
        for v in violations:
            if v['key'] in seen:
                continue
            seen.add(v['key'])
            if n >= 10:
                break
            path = os.path.join(rdir, '%s-%d.json' % (pid, n))
            n += 1
            with open(path, 'w') as f:
                json.dump({'property': pid, 'tier': tier, 'seed': seed,
                           'scenario': v['scenario'], 'case': v['case'],
                           'key': v['key'], 'message': v['message'],
                           'detail': v['detail']}, f, indent=1)
            print('%s [%s case %s] %s' % (v['key'], v['scenario'], v['case'],
                                         v['message'][:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        for p in problems:
            print('note: ' + p)
        return 1
    if problems:
        for p in problems:
            print('INCONCLUSIVE property=%s %s' % (pid, p))
        return 2
    print('OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs'
          % (pid, tier, seed, evidence['coverage']['evaluations'], states,
             evidence['wall_s']))
    return 0


def replay(path):
    r = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix='bgverif.')
    try:
        results, problems = run_workers(r['property'], r['tier'], r['seed'], 1,
                                        scratch, [r['scenario'], str(r['case'])])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    agg = aggregate(results)
    for v in agg['violations']:
        print('%s [%s case %s] %s\n%s' % (v['key'], v['scenario'], v['case'],
                                         v['message'], v['detail']))
    for p in problems + agg['errors']:
        print('problem: ' + p)
    if agg['violations']:
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
        return 1
    print('not reproduced')
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv))
