#!/usr/bin/env python3
"""check.py ID: decides one property on the tree in /repo.   check.py --replay FILE: executes a recorded violation again.

Environment: VERIF_TIER=quick|thorough, VERIF_SEED=n, VERIF_SECONDS=s (simulation time instead of the tier's)."""
import fcntl
import json
import os
import subprocess
import sys
import time

from vf import build, gencamp, gencase, rt

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.path.join(HERE, 'evidence')
RT = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10'}
E2E = {'C17', 'C18', 'C19'}
GEN = {'C11', 'C12', 'C13', 'C14', 'C15', 'C16'}
SECONDS = {'quick': {'rt': 28, 'e2e': 20, 'gen': 40}, 'thorough': {'rt': 420, 'e2e': 240, 'gen': 480}}


def known():
    """Findings the check knows: lines 'KNOWN property=<id> class=<class> match=<text>'."""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                if l.startswith('KNOWN '):
                    w = l.strip().split(' ', 3)
                    out.append((w[1].split('=')[1], w[2].split('=')[1], w[3].split('=', 1)[1]))
    return out


def replay(path, tree=None):
    with open(path) as f:
        v = json.load(f)
    tree = tree or build.build()
    if v['kind'] == 'gen':
        R = gencase.Runner(tree, os.path.join(gencamp.GDIR, '%s-%d' % (v['property'], v['worker'])))
        o = R.run(v, trace=True)
        R.stop()
        hit = [x for x in gencamp.relevant(v['property'], o) if x[0] == v['class']]
        text = hit[0][1] if hit else 'not reproduced'
        if hit:
            text += '\n(histories %s)' % ('identical to the recorded ones' if o.hashes == v['hashes'] else 'differ from the recorded ones')
        return bool(hit), text
    return rt.replay(tree, v, os.path.join(rt.WDIR, 'replay-' + v['property']))


def confirm(v, prop, n):
    """A violation counts when a fresh process reproduces it from its file."""
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (prop, n))
    with open(path, 'w') as f:
        json.dump(v, f, indent=1)
    for _ in range(2):
        p = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), '--replay', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode == 1:
            return path, p.stdout
    return None, p.stdout


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        hit, text = replay(sys.argv[2])
        print(('REPRODUCED ' if hit else 'NOT REPRODUCED ') + text)
        return 1 if hit else 0
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in SECONDS:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    kind = 'rt' if prop in RT else 'e2e' if prop in E2E else 'gen'
    secs = float(os.environ.get('VERIF_SECONDS') or SECONDS[tier][kind])
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(build.BUILD, exist_ok=True)
    lock = open(os.path.join(build.BUILD, '.check-' + prop), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    for f in os.listdir(os.path.join(EVID, 'replay')) if os.path.isdir(os.path.join(EVID, 'replay')) else []:
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(EVID, 'replay', f))
    try:
        tree = build.build()
    except build.Broken as e:
        print('the tree does not build: %s' % e)
        return 2
    notes = []
    if kind in ('rt', 'e2e'):
        st, viol, notes = rt.run(tree, prop, tier, seed, secs, profile='E2E' if kind == 'e2e' else prop, e2e=kind == 'e2e')
        cov = coverage_rt(prop, st, kind)
    else:
        st = gencamp.campaign(tree, prop, seed, secs, 30 if tier == 'quick' else 150)
        viol = st['viol']
        cov = coverage_gen(prop, st)
    # report
    bad, unconfirmed, kn = [], [], []
    K = known()
    seen = set()
    for v in viol:
        key = (v['kind'], v['class'])
        if key in seen and len(bad) >= 1:
            continue
        hit = [m for p, c, m in K if p == prop and c == v['class'] and m in json.dumps(v)]
        if hit:
            kn.append((v, hit[0]))
            continue
        path, text = confirm(v, prop, len(bad) + len(unconfirmed))
        if path:
            seen.add(key)
            bad.append((v, path, text))
        else:
            unconfirmed.append((v, text))
        if len(bad) >= 3:
            break
    wall = time.time() - t0
    cov['build_of_the_tree_s'] = round(tree.build_s, 1)
    cov['notes'] = notes[:20]
    cov['unconfirmed_reports'] = [v['detail'][:300] for v, _ in unconfirmed]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'wall_s': round(wall, 1), 'violations': len(bad),
          'assumptions': ASSUME_GEN if kind == 'gen' else ASSUME_RT}
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for v, m in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, m))
    for v, t in unconfirmed:
        print('unconfirmed: %s' % v['detail'][:500])
    for v, path, text in bad:
        print('%s: %s' % (v['class'], v['detail'][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    print('%s: %d simulated runs, %d distinct, %.0f s, %d violation(s)' % (prop, cov['evaluations'], cov['distinct_nontrivial'], wall, len(bad)))
    return 1 if bad else 0


ASSUME_RT = ['one thread: the framework documents no thread safety', 'the mocks are compiled by gcc/g++ 13 at -O1 on x86-64', 'modules are drawn from the kinds of declarations DESIGN.md lists']
ASSUME_GEN = ['system calls fail only with errors the call can return', 'the LLVM libraries work as shipped', 'runs of the generator meet the file system only through system calls']


def coverage_rt(prop, st, kind):
    fk = {k: v for k, v in st['probes'].items() if 'fault' in k or 'fail' in k}
    h = st['wall'] / 3600 if st['wall'] else 1
    return {
        'evaluations': st['runs'] + (st['modules_built'] + st['modules_failed'] if kind == 'e2e' else 0),
        'distinct_nontrivial': st['distinct_histories'] + (st['modules_built'] if kind == 'e2e' else 0),
        'rule': 'one evaluation = one simulated run: a schedule drawn from one seed (which task steps next, which mock it expects or calls, with which values, where a test is abandoned, which allocation or I/O call fails), executed in one process '
                'against mocks the generator made from seeded headers, every operation compared with the reference model; counted as distinct and non-trivial by the hash of its complete observed history within a simulator process'
                + ('; plus one per module taken from header to loadable mock' if kind == 'e2e' else ''),
        'samples': st['samples'] or ['no run: no world could be loaded'],
        'simulated_runs': st['runs'], 'seeds': st['runs'], 'seeds_per_hour': round(st['runs'] / h), 'seeds_per_hour_all_cores': round(st['runs'] / h * 8),
        'operations': st['ops'], 'simulated_time': 'none: the runtime reads no clock; progress is counted in operations',
        'distinct_schedules': st['distinct_schedules'], 'distinct_measure': 'schedules: hash of the order of tasks and operations; histories: hash of every observed result and error text',
        'reruns_compared': st['reruns_compared'], 'reruns_differing': st['reruns_differing'],
        'faults_injected': fk, 'probes': st['probes'],
        'modules_built': st['modules_built'], 'modules_failed': st['modules_failed'], 'functions_mocked': st['functions_mocked'], 'languages': st['languages'], 'generator_options': st['generator_options'],
        'real_code': 'EasyMockGenerate (to make the mocks), the generated mocks compiled with gcc, libEasyMockFramework with boost.stacktrace/libbacktrace',
        'stubs': 'malloc family, open/read/pread/fopen/mmap seams in front of libc; the test code calling the mocks is the simulator',
    }


def coverage_gen(prop, st):
    h = st['wall'] / 3600 if st.get('wall') else 1
    fired = st.get('fired', {})
    return {
        'evaluations': st['runs'], 'distinct_nontrivial': len(st['nontrivial']),
        'rule': 'one evaluation = one simulated process of EasyMockGenerate under a seeded case (input header, command line, environment, heap layout, clock, fault plan, disk damage, interleaving with other processes); '
                'distinct by the hash of every file-system event, its result and the exit status of all processes of the case; non-trivial: disturbed by at least one fault, a changed environment, another process or an earlier step',
        'samples': st['samples'][:3],
        'cases': st['cases'], 'seeds': st['cases'], 'seeds_per_hour': round(st['cases'] / h), 'simulated_processes': st['runs'], 'system_calls_simulated': st['events'],
        'simulated_time': 'the clock is stubbed where a case says so; progress is counted in system calls',
        'distinct_histories': len(st['hashes']), 'inputs': len(st['inputs']), 'inputs_left_out': st['skipped_inputs'],
        'faults_injected': dict(sorted(fired.items(), key=lambda x: -x[1])), 'faults_fired': sum(fired.values()), 'allocation_failures': st['alloc'],
        'scheduler_steps': st['steps'], 'context_switches': st['switches'], 'exit_statuses': st['statuses'],
        'reruns_compared': st['reruns'], 'reruns_differing': st['differing'],
        'real_code': 'EasyMockGenerate with libclang-cpp, unmodified binaries, in forked processes', 'stubs': 'file-system system calls (trapped, delayed, failed, shortened), malloc family, clock; process creation and sockets are refused',
    }


if __name__ == '__main__':
    try:
        sys.exit(main())
    except build.Broken as e:
        print('the machinery failed: %s' % e)
        sys.exit(3)
