"""Builds worlds: sets of mocked modules (generated mock + glue) the runtime simulator can load."""
import resource
import os
import random
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import build
from .worldgen import make_module


class ModFail(Exception):
    def __init__(self, stage, text):
        Exception.__init__(self, stage)
        self.stage = stage
        self.text = text


def gen_cmd(tree, m, h, out='.'):
    return [tree.gen, '-i', h, '-o', out] + m.opts


def limited():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def sh(cmd, cwd, stage, env=None, timeout=120):
    gen = stage.startswith('generate')       # takes a fraction of a second
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=40 if gen else timeout, env=env, preexec_fn=limited if gen else None)
    except subprocess.TimeoutExpired:
        raise ModFail(stage, 'timeout: ' + ' '.join(cmd))
    if p.returncode:
        raise ModFail(stage, '%s\nexit %d\n%s' % (' '.join(cmd), p.returncode, (p.stdout + p.stderr).decode('latin1')[-3000:]))
    return p.stdout


def write_module(d, m):
    os.makedirs(d, exist_ok=True)
    for n, t in m.files.items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        with open(os.path.join(d, n), 'w') as f:
            f.write(t)
    ext = 'cpp' if m.cpp else 'c'
    with open(os.path.join(d, 'glue_call.' + ext), 'w') as f:
        f.write(m.glue_call)
    with open(os.path.join(d, 'glue_expect.' + ext), 'w') as f:
        f.write(m.glue_expect)


def debug_info(m):
    """-> (flags, without compilation directory): what a module says about its source files."""
    if not m.prof.get('debug'):
        return [], False
    if m.idx == 0:
        return ['-g', '-gdwarf-4'], True
    return random.Random('debug ' + m.header_name + str(len(m.glue_call))).choice([([], False), (['-g'], False), (['-g', '-gz'], False), (['-g1'], False), (['-g', '-gdwarf-3'], False), (['-g', '-gsplit-dwarf'], False)])


def build_module(tree, d, m, opt='-O1', stages=None):
    """-> path of the module; raises ModFail.  stages: how the pieces are compiled (lists of flags)."""
    write_module(d, m)
    for h in m.inputs:          # one after the other, into the same directory
        sh(gen_cmd(tree, m, h), d, 'generate')
    for f in m.mock_srcs + m.mock_hdrs:
        if not os.path.exists(os.path.join(d, f)):
            raise ModFail('generate', 'exit 0 but %s is missing' % f)
    ext = 'cpp' if m.cpp else 'c'
    cc = ['g++', '-std=c++17', '-fno-gnu-unique'] if m.cpp else ['gcc']
    base = [opt, '-w', '-fPIC', '-I', '.', '-I', build.INC, '-I', build.SIM] + m.defs
    debug, nodir = debug_info(m)
    objs = []
    for s in m.mock_srcs + ['glue_call.' + ext, 'glue_expect.' + ext]:
        # only the mock needs the requested options, the glue just has to compile
        flags = (base if s in m.mock_srcs else ['-O0'] + base[1:]) + debug
        stage = 'compile ' + ('mock' if s in m.mock_srcs else s.split('.')[0])
        if nodir:
            # an object whose debug information does not say where it was compiled (the attribute is optional)
            sh(cc + flags + ['-dA', '-S', s, '-o', s + '.s'], d, stage)
            with open(os.path.join(d, s + '.s'), encoding='latin1') as f:
                t = f.read()
            with open(os.path.join(d, s + '.s'), 'w', encoding='latin1') as f:
                f.write(re.sub(r'\.uleb128 0x1b(\s+# \(DW_AT_comp_dir\))', r'.uleb128 0x2fff\1', t))
            sh(cc + ['-c', s + '.s', '-o', s + '.o'], d, stage)
        else:
            sh(cc + flags + ['-c', s, '-o', s + '.o'], d, stage)
        objs.append(s + '.o')
    if m.cpp:
        def qual(f):
            return '::'.join(f.ns + ([f.cls] if f.cls else []) + [f.name])
        have = {}
        for l in sh(['nm', '-C', '--defined-only', '-g'] + [x + '.o' for x in m.mock_srcs], d, 'symbols').decode('latin1').splitlines():
            l = l.replace(' W ', ' T ', 1)
            if ' T ' in l:
                n = l.split(' T ', 1)[1].split('(')[0].strip()
                have[n] = have.get(n, 0) + 1
        for n in sorted(set(qual(f) for f in m.fns)):
            want = sum(qual(f) == n for f in m.selected)
            if have.get(n, 0) != want:
                raise ModFail('symbols', 'the mock of %s (%s) defines %d functions %s, selected were %d' % (m.header_name, ' '.join(m.opts), have.get(n, 0), n, want))
    else:
        have = set(l.split()[-1] for l in sh(['nm', '--defined-only', '-g'] + [x + '.o' for x in m.mock_srcs], d, 'symbols').decode('latin1').splitlines() if ' T ' in l or ' W ' in l)
        all_ = set(f.name for f in m.fns)
        want = set(f.name for f in m.selected)
        if have & all_ != want:
            raise ModFail('symbols', 'the mock of %s (%s) defines %s, selected were %s' % (m.header_name, ' '.join(m.opts), sorted(have & all_), sorted(want)))
    attributed = [f for f in m.selected if f.section or f.weak]
    if attributed:
        syms = sh(['objdump', '-t', '-C'] + [x + '.o' for x in m.mock_srcs], d, 'symbols').decode('latin1').splitlines()
        for f in attributed:
            q = '::'.join(f.ns + [f.name])
            if sum('::'.join(g.ns + ([g.cls] if g.cls else []) + [g.name]) == q for g in m.fns) > 1:
                continue
            mine = [l for l in syms if ' F ' in l and re.sub(r'^.*?\t[0-9a-f]+ +(\.(hidden|protected|internal) )?', '', l).split('(')[0].strip() == q]
            if len(mine) != 1 or f.section and ' %s\t' % f.section not in mine[0] or f.weak and not re.match(r'[0-9a-f]+ .?w', mine[0]):
                raise ModFail('attribute', 'the mock of %s (%s) lost an attribute of %s (%s)' % (m.header_name, ' '.join(m.opts), q, ' | '.join(mine)))
    so = os.path.join(d, 'mod.so')
    sh([cc[0], '-shared', '-o', so] + objs + ['-L', tree.fwdir, '-lEasyMockFramework', '-Wl,-rpath,' + tree.fwdir], d, 'link')
    return so


def build_worlds(tree, root, seed, worlds, opt='-O1', jobs=8):
    """worlds: list of lists of (lang, prof).  -> [(world file, modules, failures)]"""
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    tasks = []
    for w, mods in enumerate(worlds):
        for i, (lang, prof) in enumerate(mods):
            m = make_module('%s/%d' % (seed, w), i, lang, prof)
            tasks.append((w, i, m, os.path.join(root, 'w%d' % w, 'm%d' % i)))

    late = []

    def one(t):
        w, i, m, d = t
        if len(late) > 3:                    # the others would not end either
            return w, i, m, None, None
        try:
            return w, i, m, build_module(tree, d, m, opt), None
        except ModFail as e:
            if e.text.startswith('timeout'):
                late.append(e)
            return w, i, m, None, e

    # C++ first: those take longest
    tasks.sort(key=lambda t: not t[2].cpp)
    with ThreadPoolExecutor(jobs) as ex:
        rs = sorted(ex.map(one, tasks), key=lambda r: (r[0], r[1]))
    out = []
    for w in range(len(worlds)):
        mine = [r for r in rs if r[0] == w]
        ok = [r for r in mine if r[3]]
        f = os.path.join(root, 'w%d' % w, 'world.txt')
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, 'w') as h:
            h.write('\n'.join(r[3] for r in ok) + '\n')
        out.append((f, [r[2] for r in ok], [(r[2], r[4]) for r in mine if r[4]]))
    return out
