"""Checks of the mock runtime: worlds of mocked modules are built from the tree and driven by the simulator sim/simrt.cpp."""
import json
import os
import re
import shutil
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

from . import build, worlds

WDIR = os.path.join(build.BUILD, 'w')


def recipe(prop, tier):
    """What the worlds of a check are made of: lists of (language, profile of worldgen)."""
    n = (14 if prop == 'C06' else 8) if tier == 'quick' else 28
    W = []
    if prop == 'C17':
        n = 54 if tier == 'quick' else 200
        return [[('c', {'select': 0.12, 'wide': 1})] * 3 for _ in range(n)]
    if prop == 'C18':
        n = 28 if tier == 'quick' else 110
        return [[('cpp', {'wide': 1})] * 3 for _ in range(n)]
    if prop == 'C19':
        n = 20 if tier == 'quick' else 80
        return [[('c', {'select': 1.0})] * 4 for _ in range(n)]
    prof = {'C05': {'longname': 0.12, 'longparam': 0.15, 'longfield': 0.3}, 'C03': {'longname': 0.1}, 'C06': {'longfield': 0.15, 'bigarray': 0.15, 'onefield': 0.2, 'nested': 0.9, 'smallarr': 0.4}}.get(prop, {})
    for i in range(n):
        # what a backtrace walks through: with and without debug information
        W.append([('cpp' if (i + j) % 3 == 0 else 'c', dict(prof, debug=1) if prop == 'C09' and i % 2 or prop == 'C10' and i % 6 == 5 else prof) for j in range(3)])
    return W


def simrt(tree, args, timeout):
    p = subprocess.run([tree.simrt] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('latin1')


def world_of(mods):
    return [m.lang_prof for m in mods]


class Found(Exception):
    pass


def run(tree, prop, tier, seed, seconds, profile=None, e2e=False):
    """-> (stats, violations, notes)"""
    t0 = time.time()
    profile = profile or prop
    W = recipe(prop, tier)
    wseed = '%s-%d' % (prop, seed)
    root = os.path.join(WDIR, prop)
    ws = worlds.build_worlds(tree, root, wseed, W)
    build_s = time.time() - t0
    viol = []
    notes = []
    nmods = sum(len(ms) for _, ms, _ in ws)
    failed = [(w, m, e) for w, (_, _, fl) in enumerate(ws) for m, e in fl]
    stats = {'modules_built': nmods, 'modules_failed': len(failed), 'functions_mocked': sum(len(m.selected) for _, ms, _ in ws for m in ms),
             'worlds': len(ws), 'world_build_s': round(build_s, 1), 'generator_options': {}, 'languages': {}}
    for _, ms, _ in ws:
        for m in ms:
            stats['languages']['c++' if m.cpp else 'c'] = stats['languages'].get('c++' if m.cpp else 'c', 0) + 1
            for o in set(x for x in m.opts if x.startswith('-')):
                stats['generator_options'][o.split('=')[0][:28]] = stats['generator_options'].get(o.split('=')[0][:28], 0) + 1
    for w, m, e in failed:
        if e2e or not nmods:
            viol.append({'kind': 'build', 'property': prop, 'world_seed': '%s/%d' % (wseed, w), 'module': m.idx, 'lang_prof': [list(x) for x in W[w]][m.idx], 'stage': e.stage,
                         'class': 'build', 'detail': 'the mock of %s does not come into being: %s: %s' % (m.header_name, e.stage, e.text[-1500:]), 'options': m.opts, 'files': m.files})
            if len(viol) >= 3:
                break
        else:
            notes.append('%s of world %d left out: %s' % (m.header_name, w, e.stage))
    ws = [(f, ms, w) for w, (f, ms, _) in enumerate(ws) if ms]

    # do the modules load, and do the two views of their types agree
    def lay(x):
        try:
            return x, simrt(tree, ['layout', x[0]], 120)
        except subprocess.TimeoutExpired:
            return x, (99, 'LOADFAIL timeout')
    good = []
    with ThreadPoolExecutor(8) as ex:
        for (f, ms, w), (rc, out) in ex.map(lay, ws):
            if rc == 0 or (rc == 1 and 'LAYOUT' in out and not e2e):
                good.append((f, ms, w))
                continue
            text = out.strip()[-1500:]
            if e2e:
                viol.append({'kind': 'layout', 'property': prop, 'world_seed': '%s/%d' % (wseed, w), 'lang_prof': [list(x) for x in W[w]], 'modules': [m.idx for m in ms], 'class': 'layout', 'detail': text})
            else:
                notes.append('world %d left out: %s' % (w, text[:200]))
    if not good and not viol:
        viol.append({'kind': 'layout', 'property': prop, 'world_seed': '%s/%d' % (wseed, ws[0][2]), 'lang_prof': [list(x) for x in W[ws[0][2]]], 'modules': [m.idx for m in ws[0][1]], 'class': 'layout', 'detail': 'no world loads: ' + '; '.join(notes)[:800]})
    tot = {'runs': 0, 'ops': 0, 'reruns_compared': 0, 'reruns_differing': 0, 'distinct_histories': 0, 'distinct_schedules': 0, 'probes': {}, 'samples': [], 'wall': 0.0}

    def go(j):
        k, (f, ms, w), secs = j
        o = os.path.join(root, 'out-%d-%d' % (w, k))
        try:
            rc, out = simrt(tree, ['gen', f, profile, str(seed * 1000003 + w), str(k * 10000000), '10000000', '%.2f' % secs, o], secs + 600)
        except subprocess.TimeoutExpired:
            raise build.Broken('the simulator did not come back')
        return k, (f, ms, w), rc, out

    jobs = []
    if good and not viol:
        shards = max(1, -(-8 // len(good)))
        secs = max(1.0, seconds * 8 / (len(good) * shards))
        jobs = [(k, g, secs) for k in range(shards) for g in good]
    unstable = 0
    with ThreadPoolExecutor(8) as ex:
        for k, (f, ms, w), rc, out in ex.map(go, jobs):
            if 'STATS ' not in out:
                raise build.Broken('the simulator failed (%d): %s' % (rc, out[-1500:]))
            for l in out.splitlines():
                if l.startswith('STATS '):
                    d = json.loads(l[6:])
                    for x in ('runs', 'ops', 'reruns_compared', 'reruns_differing', 'distinct_histories', 'distinct_schedules'):
                        tot[x] += d[x]
                    tot['wall'] += d['wall']
                    for a, b in d['probes'].items():
                        tot['probes'][a] = tot['probes'].get(a, 0) + b
                    if len(tot['samples']) < 2:
                        tot['samples'].append({'world': '%s/%d' % (wseed, w), 'modules': [m.header_name for m in ms], 'run': k * 10000000, 'schedule': d['sample'].split('\n')[:25]})
                elif l.startswith('NONDET'):
                    unstable += 1
                    notes.append(l[:300])
                elif l.startswith('HARNESS'):
                    raise build.Broken(l)
                elif l.startswith('VIOL '):
                    m = re.match(r'VIOL (\S+) hash=(\w+) run=(\d+) (.*)', l)
                    with open(m.group(1)) as h:
                        plan = h.read()
                    viol.append({'kind': 'rt', 'property': prop, 'world_seed': '%s/%d' % (wseed, w), 'lang_prof': [list(x) for x in W[w]], 'modules': [x.idx for x in ms],
                                 'class': re.search(r'^# class (.*)$', plan, re.M).group(1), 'detail': m.group(4), 'hash': m.group(2), 'run': int(m.group(3)), 'plan': plan.split('\n')})
    stats.update({k: v for k, v in tot.items()})
    stats['runs_whose_outcome_varied'] = unstable
    return stats, viol, notes


def replay(tree, v, root):
    """-> (reproduced, text)"""
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    from .worldgen import make_module
    if v['kind'] == 'build':
        lang, prof = v['lang_prof']
        m = make_module(v['world_seed'], v['module'], lang, prof)
        try:
            worlds.build_module(tree, os.path.join(root, 'w0', 'm%d' % v['module']), m)
        except worlds.ModFail as e:
            return e.stage == v['stage'], '%s: %s' % (e.stage, e.text[-1500:])
        return False, 'the module builds'
    so = []

    def one(i):
        lang, prof = v['lang_prof'][i]
        m = make_module(v['world_seed'], i, lang, prof)
        return worlds.build_module(tree, os.path.join(root, 'w0', 'm%d' % i), m)
    try:
        with ThreadPoolExecutor(8) as ex:
            so = list(ex.map(one, v['modules']))
    except worlds.ModFail as e:
        return False, 'the world does not build any more: %s %s' % (e.stage, e.text[-500:])
    f = os.path.join(root, 'w0', 'world.txt')
    with open(f, 'w') as h:
        h.write('\n'.join(so) + '\n')
    if v['kind'] == 'layout':
        rc, out = simrt(tree, ['layout', f], 120)
        return rc != 0, out.strip()[-1500:]
    p = os.path.join(root, 'plan')
    with open(p, 'w') as h:
        h.write('\n'.join(v['plan']) + '\n')
    rc, out = simrt(tree, ['exec', f, p], 120)
    m = re.search(r'RESULT (\S+) hash=(\w+) (.*)', out)
    if not m:
        return False, out[-500:]
    return m.group(1) == v['class'], '%s hash %s (recorded %s)%s %s' % (m.group(1), m.group(2), v['hash'], '' if m.group(2) == v['hash'] else ' DIFFERENT HASH', m.group(3)[:1500])
