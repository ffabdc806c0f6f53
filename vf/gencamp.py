"""What the simulated runs of the generator look like, per property: seeded cases, and the campaign that searches them."""
import copy
import glob
import hashlib
import json
import multiprocessing
import os
import random
import time
import traceback

from . import build
from .gencase import RELEVANT, Runner
from .worldgen import make_module

GDIR = os.path.join(build.BUILD, 'g')
ENOSPC, EIO, EINTR, EDQUOT, EACCES, EMFILE, ENFILE, ENOENT, EROFS, ENOMEM, EPERM, EFBIG, ELOOP, ESTALE = 28, 5, 4, 122, 13, 24, 23, 2, 30, 12, 1, 27, 40, 116


class Input:
    pass


def stem_outs(inp, out='out'):
    b = os.path.basename(inp.header)
    ext = '.cpp' if '--mock-cpp' in inp.opts else '.c'
    return ['%s/easyMock_%s%s' % (out, os.path.splitext(b)[0], ext), '%s/easyMock_%s.h' % (out, os.path.splitext(b)[0])]


def repo_inputs():
    """The headers the repository ships for its own tests: more kinds of declarations."""
    d = os.path.join(build.REPO, 'test/easyMockGenerate/include')
    out = []
    names = sorted(glob.glob(d + '/*.h'))
    allf = {}
    for n in names:
        with open(n, encoding='utf-8', errors='surrogateescape') as f:
            allf[os.path.basename(n)] = f.read()
    for n in sorted(allf):
        i = Input()
        i.header = n
        todo, i.files = [n], {}
        while todo:
            x = todo.pop()
            if x in i.files:
                continue
            i.files[x] = allf[x]
            todo += [y for y in allf if '#include "%s"' % y in allf[x] or '#include <%s>' % y in allf[x]]
        i.opts = (['--mock-cpp', '-xc++'] if n.startswith('cpp') or 'class ' in allf[n] or 'namespace ' in allf[n] else []) + (['-I.'] if len(i.files) > 1 else [])
        i.name = 'repo:' + n
        out.append(i)
    return out


def module_input(seed, k, rnd):
    m = make_module(seed, k, 'cpp' if rnd.random() < 0.35 else 'c', {'select': 0.2, 'parseerr': 0})
    i = Input()
    i.header = m.header_name
    i.files = {n: t for n, t in m.files.items() if n != m.sib}
    i.opts = list(m.opts)
    if not m.cpp and not m.gen_types and rnd.random() < 0.2:
        i.opts.append('--generate-types')
    i.name = 'gen:%s/%d' % (seed, k)
    return i


def proc(inp, **kw):
    p = {'args': ['-i', inp.header, '-o', 'out'] + inp.opts, 'cwd': '.', 'ref': 'r', 'may': []}
    p.update(kw)
    return p


def case_for(inp, steps, **kw):
    c = {'input': inp.name, 'files': {k: v for k, v in inp.files.items()}, 'dirs': ['out'], 'refs': {'r': {'args': ['-i', inp.header, '-o', 'out'] + inp.opts}}, 'steps': steps}
    c.update(kw)
    return c


# ------------------------------------------------------------------------------------------------ faults
WRITE_ERR = [ENOSPC, EIO, EDQUOT, EFBIG, EINTR, EROFS, ESTALE]
OPEN_ERR = [EACCES, EMFILE, ENFILE, ENOENT, EROFS, ENOSPC, EIO, ENOMEM, EINTR, ELOOP]
READ_ERR = [EIO, ESTALE, ENOMEM, EINTR]


def one_fault(r, kind=None):
    f = raw_fault(r, kind)
    if f[3] == 'fail' and f[4] == EINTR and f[5] < 0:        # interrupted calls may be repeated: the interruptions end some time
        f[5] = 20
    return f


def raw_fault(r, kind=None):
    k = kind or r.choices(['wfail', 'wshort', 'cfail', 'ofail', 'quota', 'rfail', 'iopen', 'istat', 'ostat', 'stdw', 'anyfail', 'rshort', 'chdir', 'seek', 'mmap', 'alter'],
                          [6, 4, 4, 4, 5, 4, 4, 4, 2, 1, 5, 2, 2, 1, 1, 1])[0]
    nth = r.randint(1, 3) if r.random() < 0.7 else r.randint(1, 9)
    rep = r.choice([0, 0, 0, 1, 3, -1])
    if k == 'wfail':
        return ['write', 'out', r.randint(1, 8), 'fail', r.choice(WRITE_ERR), rep]
    if k == 'wshort':
        return ['write', 'out', r.randint(1, 8), 'short', r.choice([0, 1, 7, 100, 511, 4095, r.randint(1, 9000)]), r.choice([0, 0, 2, 10])]
    if k == 'cfail':
        return ['close', 'out', r.randint(1, 2), 'fail', r.choice([EIO, ENOSPC, EDQUOT, EINTR]), 0]
    if k == 'ofail':
        return ['open', 'out', r.randint(1, 2), 'fail', r.choice(OPEN_ERR), rep]
    if k == 'quota':
        return ['write', 'out', 1, 'quota', r.choice([0, 1, 4095, 4096, 4097, r.randint(0, 12000), r.randint(0, 80000)]), 0]
    if k == 'rfail':
        return ['read', 'in', nth, 'fail', r.choice(READ_ERR), rep]
    if k == 'rshort':
        return ['read', 'in', nth, 'short', r.choice([1, 10, 100, r.randint(1, 4000)]), r.choice([0, 2, 50])]
    if k == 'iopen':
        return ['open', 'in', nth, 'fail', r.choice(OPEN_ERR), rep]
    if k == 'istat':
        return ['stat', 'in', nth, 'fail', r.choice([ENOENT, EACCES, EIO, ELOOP, ENOMEM]), rep]
    if k == 'ostat':
        return ['stat', 'out', nth, 'fail', r.choice([ENOENT, EACCES, EIO, ENOMEM]), rep]
    if k == 'stdw':
        return ['write', 'std', nth, 'fail', r.choice([EIO, ENOSPC, 32]), rep]
    if k == 'anyfail':
        return ['all', 'any', r.randint(1, 60), 'fail', r.choice([EIO, ENOENT, EACCES, ENOSPC, ENOMEM, EINTR, EMFILE]), rep]
    if k == 'chdir':
        return ['chdir', 'in', r.randint(1, 3), 'fail', r.choice([ENOENT, EACCES, EIO]), rep]
    if k == 'seek':
        return ['lseek', r.choice(['in', 'out', 'std']), nth, 'fail', r.choice([EIO, 29]), rep]
    if k == 'mmap':
        return ['mmap', 'in', nth, 'fail', r.choice([ENOMEM, EACCES, 19]), rep]
    return ['alter', 'out', nth, 'fail', r.choice([EACCES, EROFS, ENOSPC, EIO]), rep]


def faults(r, n=None):
    return [one_fault(r) for _ in range(n or r.choice([1, 1, 1, 2, 2, 3]))]


def heap_clock(r, p):
    if r.random() < 0.3:
        p['heap'] = r.randint(1, 1 << 30)
    if r.random() < 0.3:
        p['clock'] = [r.choice([1, 10 ** 12, 1762000000000, 4102444800000]), r.choice([0, 1, 7, 1000, 86400000, -1])]
    return p


STALE = ['', 'x', '// stale\n' * 3, 'int stale(void) { return 1; }\n' * 4000]


def stale_steps(r, inp):
    if r.random() < 0.7:
        return []
    return [{'op': 'disk', 'do': [['put', f, r.choice(STALE)] for f in stem_outs(inp) if r.random() < 0.7]}]


# ------------------------------------------------------------------------------------------------ one case per (property, seed)
def gen_C11(r, pick):
    inp = pick(r)
    steps = stale_steps(r, inp)
    x = r.random()
    if x < 0.12:
        p = proc(inp, expect='ok', faults=[one_fault(r, r.choice(['wshort', 'rshort'])) for _ in range(r.randint(1, 3))])      # not failures at all
    elif x < 0.24:
        p = proc(inp, alloc=[r.choice([r.randint(1, 200), r.randint(1, 12000), r.randint(6000, 60000)]), r.choice([0, 0, 1])])
    else:
        p = proc(inp, faults=faults(r))
    p['may'] = stem_outs(inp)
    steps.append({'op': 'run', 'procs': [heap_clock(r, p)]})
    return from_elsewhere(r, case_for(inp, steps), inp)


def from_elsewhere(r, c, inp, share=0.15):
    """The same runs, started in another directory (where a header of the same name lies) and sent to the right one with --cwd."""
    if r.random() >= share:
        return c
    home = ['-i', inp.header, '-o', 'out']
    procs = [p for s in c['steps'] if s['op'] == 'run' for p in s['procs']]
    if not all(p['args'][:4] == home and p['cwd'] == '.' and '--cwd' not in p['args'] for p in procs):
        return c
    c['files'] = dict(c['files'])
    c['files']['work/' + inp.header] = 'int decoy_function(int a);\n'
    c['dirs'] = c['dirs'] + ['work/out']
    for p in procs:
        p['cwd'] = 'work'
        p['args'] = p['args'][:4] + ['--cwd', r.choice(['@ROOT@', '..', '@ROOT@/work/..', '../work/..'])] + p['args'][4:]
        if r.random() < 0.3 and not p.get('expect'):
            p['faults'] = [['chdir', 'any', 1, 'fail', r.choice([EACCES, EIO, ENOENT, ELOOP, ENOMEM]), r.choice([0, 0, -1])]] + p.get('faults', [])
            if not p.get('alloc'):
                p['expect'] = 'fail'
                p['faults'] = p['faults'][:1]
    return c


def broken_text(r, t):
    k = r.randint(0, 6)
    if k == 0:
        return t[:r.randint(0, max(1, len(t) - 1))]
    if k == 1:
        i = r.randint(0, len(t))
        return t[:i] + r.choice(['@', '}', '{', '(', ')', ';;(', '#', '#error broken\n', '\n#include "nowhere.h"\n', '$$', '"', "'", '/*', 'unknown_type x;', '\0', '\xff\xfe']) + t[i:]
    if k == 2:
        L = t.split('\n')
        del L[r.randint(0, len(L) - 1)]
        return '\n'.join(L)
    if k == 3:
        L = t.split('\n')
        i = r.randint(0, len(L) - 1)
        L.insert(r.randint(0, len(L)), L[i])
        return '\n'.join(L)
    if k == 4:
        i = r.randint(0, max(0, len(t) - 1))
        return t[:i] + chr(r.randint(1, 255)) + t[i + 1:]
    if k == 5:
        i = r.randint(0, max(0, len(t) - 1))
        return t[:i] + t[i + r.randint(1, 40):]
    return ''.join(r.choice('abc {}();*,#"\n<>&=:12') for _ in range(r.randint(0, 300)))


def read_files(files):
    """Those the generator is sure to read: of the directories given with -I some are only looked at in vain."""
    return [n for n in sorted(files) if not n.startswith('inc')]


def gen_C12(r, pick):
    inp = pick(r)
    may = stem_outs(inp)
    x = r.random()
    if x < 0.45:
        p = proc(inp, faults=faults(r), may=may)
        if r.random() < 0.1:
            p['alloc'] = [r.randint(1, 30000), r.choice([0, 1])]
        return from_elsewhere(r, case_for(inp, stale_steps(r, inp) + [{'op': 'run', 'procs': [heap_clock(r, p)]}]), inp)
    if x < 0.7:
        files = dict(inp.files)
        n = r.choice(sorted(files))
        for _ in range(r.choice([1, 1, 2, 4])):
            files[n] = broken_text(r, files[n])
        p = proc(inp, ref=None, may=may, want=may)
        if r.random() < 0.3:
            p['args'] = p['args'] + ['--ignore-parser-error']
            p['expect'] = None
        if r.random() < 0.25:
            p['faults'] = faults(r)
        return case_for(inp, [{'op': 'run', 'procs': [p]}], files=files, refs={})
    # command lines that cannot work
    k = r.randint(0, 15)
    base = ['-i', inp.header, '-o', 'out'] + inp.opts
    files = dict(inp.files)
    dirs = ['out']
    if k == 0:
        a = ['-i', 'nowhere.h', '-o', 'out']
    elif k == 1:
        a = ['-i', inp.header, '-o', 'nowhere']
    elif k == 2:
        a = ['-i', 'out', '-o', 'out']
    elif k == 3:
        a = ['-i', inp.header, '-o', inp.header]
    elif k == 4:
        a = ['-o', 'out']
    elif k == 5:
        a = ['-i', inp.header]
    elif k == 6:
        a = ['-i', '-o', 'out']
    elif k == 7:
        a = ['-i', inp.header, '-o', '--cwd', '.']
    elif k == 8:
        a = base + ['-i', inp.header]
    elif k == 9:
        a = base + ['-o', 'out']
    elif k == 10:
        a = base + ['--cwd', 'nowhere']
    elif k == 11:
        a = base + [r.choice(['--mock-only', '--ignore-generation-of', '--cwd', '--generate-attribute', '--ignore-field-generation-of', '--generate-comparator-of'])]
    elif k == 12:
        a = []
    elif k == 13:
        files[r.choice(read_files(files))] = '#error stop here\n'
        a = base
    elif k == 14:
        n = r.choice(read_files(files))
        files[n] = files[n] + '\nthis_type_does_not_exist oops(int);\n' if r.random() < 0.5 else '#include "nowhere_at_all.h"\n' + files[n]
        a = base
    else:
        a = base + ['--cwd', '.', '--cwd', '.']
    p = {'args': a, 'cwd': '.', 'expect': 'fail', 'may': may if k >= 13 else []}
    if r.random() < 0.2:
        p['faults'] = faults(r)
    return case_for(inp, stale_steps(r, inp) + [{'op': 'run', 'procs': [heap_clock(r, p)]}], files=files, dirs=dirs, refs={})


def gen_C13(r, pick):
    inp = pick(r)
    may = stem_outs(inp)
    x = r.random()
    extra = {'out/keep.txt': 'keep', 'out/easyMock_other.h': 'other', 'note.txt': 'n', 'sub/deep/x.h': '//\n'}
    for f in may:
        if r.random() < 0.3:
            extra[os.path.splitext(f)[0] + r.choice(['.cpp.bak', '.o', '~', '.tmp', '.h.orig', '.txt'])] = 'mine'
    files = dict(inp.files)
    files.update(extra)
    if x < 0.06:
        # a directory lies where an output has to go
        bad = r.choice(may)
        p = heap_clock(r, {'args': ['-i', inp.header, '-o', 'out'] + inp.opts, 'cwd': '.', 'expect': 'fail', 'may': [f for f in may if f != bad]})
        if r.random() < 0.3:
            p['faults'] = faults(r)
        do = [['mkdir', bad]] + [['put', bad + '/mine.txt', 'mine']] * (r.random() < 0.6)
        c = case_for(inp, [{'op': 'disk', 'do': do}, {'op': 'run', 'procs': [p]}], files=files, refs={})
    elif x < 0.5:
        p = proc(inp, faults=faults(r), may=may)
        c = from_elsewhere(r, case_for(inp, [{'op': 'run', 'procs': [heap_clock(r, p)]}], files=files), inp)
    elif x < 0.65:
        c = gen_C12(r, pick)
        if not c['refs'] and c['steps'][-1]['procs'][0].get('want') is None or True:
            c['files'] = dict(c['files'])
            c['files'].update(extra)
    elif x < 0.8:
        a = r.choice([['-h'], ['--help'], ['--help', '-i', inp.header, '-o', 'out'], ['-i', inp.header, '-o', 'out', '--help']])
        c = case_for(inp, [{'op': 'run', 'procs': [{'args': a, 'cwd': '.', 'may': []}]}], files=files, refs={})
    else:
        k = r.randint(2, 4)
        p = [heap_clock(r, proc(inp, may=may)) for _ in range(k)]
        if r.random() < 0.6:
            p[0]['faults'] = [['all', 'any', r.randint(1, 60), r.choice(['crash', 'crashafter']), 0, 0]]
        c = case_for(inp, [{'op': 'run', 'procs': p, 'sched': r.randint(1, 1 << 40)}], files=files)
    return c


def spellings(r, inp, d='hdr', cwdok=True):
    """The same header and output directory, named in other ways."""
    h = inp.header
    ins = ['%s/%s' % (d, h), './%s/%s' % (d, h), '%s//%s' % (d, h), '@ROOT@/%s/%s' % (d, h), '%s/../%s/%s' % (d, d, h), 'out/../%s/%s' % (d, h)]
    outs = ['out', './out', 'out/', 'out//', '@ROOT@/out', '%s/../out' % d]
    return r.choice(ins), r.choice(outs)


ENVS = [{'LANG': 'de_DE.UTF-8', 'LC_ALL': 'tr_TR.UTF-8'}, {'LC_ALL': 'C', 'TERM': 'xterm-256color', 'COLUMNS': '20'}, {'HOME': '/nonexistent', 'TMPDIR': '/nonexistent', 'USER': 'nobody', 'LOGNAME': 'x'},
        {'PATH': ''}, {'PWD': '/somewhere/else', 'OLDPWD': '/'}, {'TZ': 'Asia/Kolkata', 'SOURCE_DATE_EPOCH': '1'}, {'EASYMOCK': '1', 'CFLAGS': '-DNDEBUG', 'CC': 'false', 'CXX': 'false'}, {}]


def gen_C14(r, pick):
    inp = pick(r)
    may = stem_outs(inp)
    steps = []
    for _ in range(r.choice([0, 0, 0, 1, 2])):             # earlier runs, of this or of other inputs
        q = proc(inp, may=may)
        if r.random() < 0.5:
            q['faults'] = faults(r, 1)
        steps.append({'op': 'run', 'procs': [heap_clock(r, q)]})
    steps += stale_steps(r, inp)
    p = proc(inp, may=may, expect='ok')
    kind = r.randint(0, 5)
    p['heap'] = r.randint(1, 1 << 30)
    if kind in (1, 5):
        p['clock'] = [r.choice([1, 10 ** 12, 4102444800000]), r.choice([0, 1, 1000, 86400000, -1])]
    if kind in (2, 5):
        e = {'PATH': '/usr/bin:/bin'}
        for x in r.sample(ENVS, 2):
            e.update(x)
        e['PAD'] = 'x' * r.randint(0, 3000)
        p['env'] = e
    files = dict(inp.files)
    dirs = ['out']
    refs = {'r': {'args': ['-i', inp.header, '-o', 'out'] + inp.opts}}
    if kind == 3:                                           # another spelling of the same thing
        files = {'hdr/' + k: v for k, v in files.items()}
        dirs = ['out', 'hdr', 'hdr/out', 'work/here']
        refs = {'r': {'args': ['-i', 'hdr/' + inp.header, '-o', 'out'] + inp.opts}}
        i, o = spellings(r, inp)
        p['args'] = ['-i', i, '-o', o] + inp.opts
        if r.random() < 0.4:
            p['args'] = inp.opts + ['-o', o, '-i', i]
        x = r.random()
        if x < 0.3:
            p['cwd'] = r.choice(['work/here', 'hdr', 'out'])
            p['args'] += ['--cwd', r.choice(['@ROOT@', '@ROOT@/', '@ROOT@/out/..'])]
        elif x < 0.5:
            p['cwd'] = 'hdr'
            p['args'] += ['--cwd', '..']
        for st in steps:
            for q in st.get('procs', []):
                q['args'] = refs['r']['args']
        if any(o.startswith('-I') for o in inp.opts):
            return gen_C14(r, pick)
    elif kind == 4:                                         # written to two places: the content does not depend on where
        dirs = ['out', 'other/place']
        q = proc(inp)
        q['args'] = ['-i', inp.header, '-o', 'other/place'] + inp.opts
        q['ref'] = None
        q['may'] = q['want'] = stem_outs(inp, 'other/place')
        q['outdirs'] = ['other/place']
        steps.append({'op': 'run', 'procs': [heap_clock(r, q)]})
        steps.append({'op': 'run', 'procs': [p]})
        return case_for(inp, steps, files=files, dirs=dirs, refs=refs, equal=list(zip(stem_outs(inp), stem_outs(inp, 'other/place'))))
    elif kind == 0 and len(inp.opts) > 1:                   # options in another place on the command line
        a = list(inp.opts)
        k = r.randint(0, 3)
        if k == 0:
            p['args'] = a + ['-i', inp.header, '-o', 'out']
        elif k == 1:
            p['args'] = ['-o', 'out'] + a + ['-i', inp.header]
        elif k == 2:
            p['args'] = ['-i', inp.header] + a + ['-o', 'out']
    steps.append({'op': 'run', 'procs': [p]})
    return case_for(inp, steps, files=files, dirs=dirs, refs=refs)


def power_loss(r, outs):
    do = []
    for f in outs:
        k = r.randint(0, 6)
        if k == 0:
            do.append(['rm', f])
        elif k == 1:
            do.append(['trunc', f, 0])
        elif k == 2:
            do.append(['trunc', f, r.randint(0, 999)])
        elif k == 3:
            do.append(['zero', f, r.randint(0, 999)])
        elif k == 4:
            do.append(['grow', f, r.randint(1, 600)])
    return [{'op': 'disk', 'do': do}] if do else []


def gen_C15(r, pick):
    inp = pick(r)
    may = stem_outs(inp)
    steps = stale_steps(r, inp)
    if r.random() < 0.3:
        steps.append({'op': 'run', 'procs': [proc(inp, may=may)]})
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.random()
        f = []
        if k < 0.55:
            f = [['all', 'any', r.randint(1, 64), r.choice(['crash', 'crashafter']), 0, 0]]
        elif k < 0.85:
            n = r.randint(1, 6)
            f = [['write', 'out', n, 'short', r.choice([1, 100, 4000, r.randint(1, 4096)]), 0], ['write', 'out', n if r.random() < 0.7 else n + 1, 'crashafter', 0, 0]]
        else:
            f = [one_fault(r), ['all', 'any', r.randint(20, 64), 'crash', 0, 0]]
        steps.append({'op': 'run', 'procs': [heap_clock(r, proc(inp, may=may, faults=f))]})
        if r.random() < 0.6:
            steps += power_loss(r, may)
    p = proc(inp, may=may, expect='ok')
    if r.random() < 0.3:
        p['heap'] = r.randint(1, 1 << 30)
    steps.append({'op': 'run', 'procs': [p]})
    return case_for(inp, steps)


def gen_C16(r, pick):
    x = r.random()
    k = r.choice([2, 2, 3, 3, 4, 6])
    inps, seen = [], set()
    files = {}
    for _ in range(k * 3):
        i = pick(r)
        st = os.path.splitext(os.path.basename(i.header))[0]
        if st in seen or any(files.get(n, t) != t for n, t in i.files.items()):
            continue
        seen.add(st)
        inps.append(i)
        files.update(i.files)
        if len(inps) == k:
            break
    procs, refs = [], {}
    for n, i in enumerate(inps):
        refs['r%d' % n] = {'args': ['-i', i.header, '-o', 'out'] + i.opts}
        for _ in range(2 if x < 0.35 and r.random() < 0.6 else 1):
            p = proc(i, ref='r%d' % n, may=stem_outs(i), expect='ok')
            y = r.random()
            if y < 0.12:
                p['faults'] = [['all', 'any', r.randint(1, 64), 'crash', 0, 0]]
                p['expect'] = None
            elif y < 0.24:
                p['faults'] = faults(r, 1)
                p['expect'] = None
            elif y < 0.35:
                p['faults'] = [one_fault(r, 'wshort')]
            if r.random() < 0.2:
                p['heap'] = r.randint(1, 1 << 30)
            procs.append(p)
            if len(procs) == 8:
                break
        if len(procs) == 8:
            break
    r.shuffle(procs)
    steps = [{'op': 'run', 'procs': procs, 'sched': r.randint(1, 1 << 40)}]
    if r.random() < 0.2:
        steps = [{'op': 'disk', 'do': [['put', f, r.choice(STALE)] for i in inps for f in stem_outs(i) if r.random() < 0.5]}] + steps
    return {'input': '+'.join(i.name for i in inps), 'files': files, 'dirs': ['out'], 'refs': refs, 'steps': steps}


GEN = {'C11': gen_C11, 'C12': gen_C12, 'C13': gen_C13, 'C14': gen_C14, 'C15': gen_C15, 'C16': gen_C16}


def make_case(prop, seed, idx, pool):
    r = random.Random('%s/%s/%d' % (prop, seed, idx))

    def pick(r):
        return pool(r.randint(0, 1 << 30))
    return GEN[prop](r, pick)


class Pool:
    """Inputs of a campaign: headers made from the seed (two thirds) and the repository's own."""
    def __init__(self, prop, seed, n):
        self.prop, self.seed, self.n = prop, seed, n
        self.cache = {}
        self.repo = [i for i in repo_inputs()]

    def __call__(self, k):
        if k % 3 == 0 and self.repo:
            return self.repo[(k // 3) % len(self.repo)]
        k = (k // 3) % self.n
        if k not in self.cache:
            self.cache[k] = module_input('g%s' % self.seed, k, random.Random('%s/%d' % (self.seed, k)))
        return self.cache[k]


# ------------------------------------------------------------------------------------------------ search
def relevant(prop, o):
    return [v for v in o.violations if v[0] in RELEVANT[prop]]


def minimise(run, case, cls, budget=150):
    def ok(c):
        nonlocal budget
        budget -= 1
        if budget < 0:
            return False
        try:
            return any(v[0] == cls for v in run(c))
        except build.Broken:
            return False

    def attempt(f):
        nonlocal case
        c = copy.deepcopy(case)
        if f(c) is False or c == case:
            return False
        if ok(c):
            case = c
            return True
        return False

    changed = True
    while changed and budget > 0:
        changed = False
        for i in range(len(case['steps']) - 1, -1, -1):
            if len(case['steps']) > 1:
                changed |= attempt(lambda c: c['steps'].pop(i))
        for i, s in enumerate(case['steps']):
            if s['op'] != 'run':
                for k in range(len(s['do']) - 1, -1, -1):
                    if k < len(case['steps'][i]['do']):
                        changed |= attempt(lambda c: c['steps'][i]['do'].pop(k))
                continue
            for k in range(len(s['procs']) - 1, -1, -1):
                if len(case['steps'][i]['procs']) > 1 and k < len(case['steps'][i]['procs']):
                    changed |= attempt(lambda c: c['steps'][i]['procs'].pop(k))
            for k in range(len(case['steps'][i]['procs'])):
                for key in ('heap', 'clock', 'env', 'alloc'):
                    if case['steps'][i]['procs'][k].get(key):
                        changed |= attempt(lambda c: c['steps'][i]['procs'][k].pop(key))
                for f in range(len(case['steps'][i]['procs'][k].get('faults', [])) - 1, -1, -1):
                    if f < len(case['steps'][i]['procs'][k]['faults']):
                        changed |= attempt(lambda c: c['steps'][i]['procs'][k]['faults'].pop(f))
    # smaller headers
    for n in sorted(case['files']):
        L = case['files'][n].split('\n')
        size = max(1, len(L) // 2)
        while size >= 1 and budget > 0:
            at = 0
            while at < len(L):
                M = L[:at] + L[at + size:]

                def setf(c):
                    c['files'][n] = '\n'.join(M)
                if len(M) < len(L) and attempt(setf):
                    L = M
                else:
                    at += size
            size //= 2
    return case


def worker(prop, seed, w, nw, seconds, limit, npool, q, tree):
    try:
        t0 = time.time()
        root = os.path.join(GDIR, '%s-%d' % (prop, w))
        R = Runner(tree, root)
        pool = Pool(prop, seed, npool)
        st = {'cases': 0, 'runs': 0, 'events': 0, 'hashes': set(), 'nontrivial': set(), 'fired': {}, 'skipped': 0, 'skipped_inputs': {}, 'switches': 0, 'steps': 0, 'reruns': 0, 'differing': 0, 'alloc': 0, 'crashes': 0, 'viol': [], 'samples': [], 'inputs': set(), 'status': {}, 'statuses': {}}
        idx = w
        while time.time() - t0 < seconds and idx < limit:
            c = make_case(prop, seed, idx, pool)
            o = R.run(c)
            st['cases'] += 1
            if o.skipped:
                st['skipped'] += 1
                st['skipped_inputs'][c['input']] = o.skipped
                idx += nw
                continue
            st['runs'] += o.runs
            st['events'] += o.events
            hh = hashlib.sha1(json.dumps(o.hashes).encode()).digest()[:8]
            st['hashes'].add(hh)
            st['inputs'].add(c['input'])
            disturbed = any(n for *_, n in o.fired) or o.alloc_fired if hasattr(o, 'alloc_fired') else any(n for *_, n in o.fired) or o.allocs_failed
            sp = c['steps'][-1].get('procs', [{}])
            if disturbed or len(sp) > 1 or len(c['steps']) > 1 or not c.get('refs') or any(p.get('heap') or p.get('clock') or p.get('env') for p in sp):
                st['nontrivial'].add(hh)
            for g, cl, act, val, n in o.fired:
                if n:
                    k = '%s %s %s%s' % (g, cl, act, ' %d' % val if val else '')
                    st['fired'][k] = st['fired'].get(k, 0) + n
            for h in o.hashes:
                s = h.split(':')[-1]
                if ':' in h:
                    st['statuses'][s] = st['statuses'].get(s, 0) + 1
            st['alloc'] += o.allocs_failed
            st['switches'] += o.switches
            st['steps'] += o.steps
            if len(st['samples']) < 1:
                st['samples'].append({k: v for k, v in c.items() if k != 'files'})
            V = relevant(prop, o)
            if V or st['cases'] % 40 == 1:
                o2 = R.run(c)
                st['reruns'] += 1
                if o2.hashes != o.hashes:
                    st['differing'] += 1
                V2 = relevant(prop, o2)
                both = [v for v in V if any(x[0] == v[0] for x in V2)]
                if V and not both:
                    o3 = R.run(c)
                    both = [v for v in relevant(prop, o3) if any(x[0] == v[0] for x in V + V2)]
                if both:
                    cls = both[0][0]
                    m = minimise(lambda x: relevant(prop, R.run(x)), c, cls)
                    o4 = R.run(m, trace=True)
                    v4 = [v for v in relevant(prop, o4) if v[0] == cls]
                    m = dict(m)
                    m.update({'kind': 'gen', 'property': prop, 'seed': seed, 'index': idx, 'worker': w, 'class': cls, 'detail': v4[0][1] if v4 else both[0][1], 'hashes': o4.hashes,
                              'trace': [{'step': a, 'events': b[-60:], 'status': s, 'stderr': e[-500:].decode('latin1')} for a, b, s, e in o4.traces]})
                    st['viol'].append(m)
                    break
            idx += nw
        R.stop()
        st['wall'] = time.time() - t0
        q.put((w, st, None))
    except build.Broken as e:
        q.put((w, None, str(e)))
    except Exception:
        q.put((w, None, traceback.format_exc()))


def campaign(tree, prop, seed, seconds, npool, jobs=8, limit=10 ** 9):
    os.makedirs(GDIR, exist_ok=True)
    q = multiprocessing.Queue()
    ps = [multiprocessing.Process(target=worker, args=(prop, seed, w, jobs, seconds, limit, npool, q, tree)) for w in range(jobs)]
    for p in ps:
        p.start()
    out = []
    err = None
    for _ in ps:
        w, st, e = q.get(timeout=seconds + 400)
        if e:
            err = e
        else:
            out.append((w, st))
    for p in ps:
        p.join()
    if err and not any(s['viol'] for _, s in out):
        raise build.Broken(err)
    tot = {'viol': []}
    for w, st in sorted(out, key=lambda x: x[0]):
        for k, v in st.items():
            if isinstance(v, set):
                tot.setdefault(k, set()).update(v)
            elif isinstance(v, list):
                tot.setdefault(k, []).extend(v)
            elif isinstance(v, dict):
                d = tot.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b if isinstance(b, int) else b
            elif k == 'wall':
                tot['wall'] = max(tot.get('wall', 0), v)
            else:
                tot[k] = tot.get(k, 0) + v
    return tot
