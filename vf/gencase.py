"""Cases of the generator simulation: a scratch tree, steps (simulated processes, damage to the disk), and what must hold."""
import os
import shutil

from .gensim import Proc, Server

DEADLY = {1011: 'SIGSEGV', 1007: 'SIGBUS', 1008: 'SIGFPE', 1004: 'SIGILL'}
RELEVANT = {
    'C11': {'silent', 'spurious'},
    'C12': {'hang', 'crash', 'mute', 'no-error', 'partial'},
    'C13': {'foreign', 'inputs'},
    'C14': {'silent', 'spurious', 'hang', 'crash', 'unequal'},
    'C15': {'silent', 'spurious', 'hang', 'crash', 'inputs'},
    'C16': {'silent', 'spurious', 'hang', 'crash', 'inputs'},
}


class Outcome:
    def __init__(self):
        self.violations = []      # (class, text)
        self.hashes = []
        self.runs = 0
        self.fired = []
        self.events = 0
        self.steps = 0
        self.switches = 0
        self.allocs_failed = 0
        self.skipped = None
        self.traces = []

    def bad(self, cls, text):
        self.violations.append((cls, text))


def snap(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            p = os.path.join(d, x)
            out[os.path.relpath(p, root)] = b'<dir>' if not os.path.islink(p) else b'<link>' + os.readlink(p).encode()
        for x in fs:
            p = os.path.join(d, x)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = b'<link>' + os.readlink(p).encode()
            else:
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, root)] = f.read()
    return out


def meta(root):
    """Permissions of everything, owner and time of the last change of files."""
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds + fs:
            p = os.path.join(d, x)
            s = os.lstat(p)
            out[os.path.relpath(p, root)] = (s.st_mode, s.st_uid, s.st_gid, s.st_nlink if x in fs else 0, s.st_mtime_ns if x in fs else 0)
    return out


class Runner:
    """Executes cases in one scratch directory."""
    def __init__(self, tree, root):
        self.root = os.path.join(root, 't')
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(self.root)
        self.server = Server(tree, os.path.join(root, 'spool'))
        self.refs = {}

    def stop(self):
        self.server.stop()

    def fresh(self, case):
        shutil.rmtree(self.root)
        os.makedirs(self.root)
        for d in case.get('dirs', ['out']):
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        for n, t in case['files'].items():
            self.put(n, t)

    def put(self, n, t):
        p = os.path.join(self.root, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(t.encode('utf-8', 'surrogateescape'))

    def sub(self, s):
        return s.replace('@ROOT@', self.root)

    def proc(self, p):
        env = {k: self.sub(v) for k, v in p['env'].items()} if p.get('env') is not None else None
        return Proc(os.path.join(self.root, p.get('cwd', '.')), [self.sub(a) for a in p['args']], env=env,
                    faults=[tuple(f) for f in p.get('faults', [])], cls=[('in', self.root)] + [('out', os.path.join(self.root, d)) for d in p.get('outdirs', ['out'])],
                    heap=p.get('heap', 0), clock=p.get('clock'), alloc=p.get('alloc'), maxev=p.get('maxev', 60000))

    def reference(self, case, name):
        """What a run without any disturbance in a clean tree creates: {path: bytes}, or None if it fails."""
        p = case['refs'][name]
        key = (repr(sorted(case['files'].items())), repr(case.get('dirs')), repr(sorted(p.items())))
        if key not in self.refs:
            self.fresh(case)
            before = snap(self.root)
            r = self.server.run([self.proc(p)])[0]
            after = snap(self.root)
            outs = {k: v for k, v in after.items() if before.get(k) != v}
            if len(self.refs) > 400:
                self.refs.clear()
            self.refs[key] = (outs if r.status == 0 else None, r)
        return self.refs[key]

    def run(self, case, trace=False):
        o = Outcome()
        refs = {}
        for n in case.get('refs', {}):
            outs, r = self.reference(case, n)
            if outs is None:
                o.skipped = 'exit %d: %s' % (r.status, r.stderr[-300:].decode('latin1'))
                return o
            if len(outs) != 2:
                o.bad('partial', 'an undisturbed run exited with 0 and left %s' % sorted(outs))
                o.bad('silent', 'an undisturbed run exited with 0 and left %s' % sorted(outs))
                return o
            refs[n] = outs
        self.fresh(case)
        for si, st in enumerate(case['steps']):
            if st['op'] == 'disk':
                for a in st['do']:
                    self.disk(a)
                continue
            before, before_meta = snap(self.root), meta(self.root)
            rs = self.server.run([self.proc(p) for p in st['procs']], sched=st.get('sched', 0))
            after, after_meta = snap(self.root), meta(self.root)
            may = set()
            dead = set()          # outputs a killed or failed process may have left in any state
            for p, r in zip(st['procs'], rs):
                o.runs += 1
                o.events += r.events
                o.hashes.append('%s:%d' % (r.hash, r.status))
                o.allocs_failed += r.alloc_fired
                for f, n in zip(p.get('faults', []), r.ffired):
                    o.fired.append((f[0], f[1], f[3], f[4] if f[3] == 'fail' else 0, n))
                if trace:
                    o.traces.append((si, r.trace, r.status, r.stderr))
                outs = refs.get(p.get('ref'))
                may |= set(outs or {}) | set(p.get('may', []))
                if r.status != 0:
                    dead |= set(outs or {})
            for pi, (p, r) in enumerate(zip(st['procs'], rs)):
                w = 'step %d process %d (%s): ' % (si, pi, ' '.join(p['args']))
                for l in r.trace:
                    if 'FORBIDDEN' in l:
                        o.bad('foreign', w + 'touched something that is not its business: ' + l)
                        break
                faulty = any(r.ffired) or r.alloc_fired
                if r.overflow or r.status in (1024, 1009):
                    o.bad('hang', w + ('did not come to an end within %d system calls' % p.get('maxev', 60000) if r.overflow else 'did not come to an end'))
                    continue
                if r.status == 99:
                    continue
                if r.status in DEADLY:
                    if not r.alloc_fired and '--ignore-parser-error' not in p['args']:
                        o.bad('crash', w + 'was killed by ' + DEADLY[r.status] + '; stderr: ' + r.stderr[-300:].decode('latin1'))
                    continue
                outs = refs.get(p.get('ref'))
                if r.status == 0:
                    if p.get('expect') == 'fail':
                        o.bad('no-error', w + 'exited with 0; stdout: ' + r.stdout[-200:].decode('latin1'))
                    elif outs is not None:
                        for n, c in outs.items():
                            if n in dead:
                                continue
                            if n not in after:
                                o.bad('silent', w + 'exited with 0, but %s is missing' % n)
                            elif after[n] != c:
                                o.bad('silent', w + 'exited with 0, but %s is not what an undisturbed run writes: %s' % (n, diff(c, after[n])))
                    elif p.get('want'):
                        miss = [n for n in p['want'] if n not in after]
                        if miss:
                            o.bad('partial', w + 'exited with 0, but %s is missing' % miss)
                else:
                    stdfault = any(n and f[1] in ('std', 'any') for f, n in zip(p.get('faults', []), r.ffired))
                    if not r.stderr and not stdfault:
                        o.bad('mute', w + 'ended with status %d and said nothing on stderr' % r.status)
                    if p.get('expect') == 'ok' or (p.get('ref') and not faulty):
                        o.bad('spurious', w + 'failed with status %d though nothing stood in its way: %s' % (r.status, r.stderr[-300:].decode('latin1')))
            for n in sorted(set(before) | set(after)):
                if before.get(n) != after.get(n) and n not in may:
                    o.bad('inputs' if n in case['files'] else 'foreign', 'step %d: %s was %s' % (si, n, 'created' if n not in before else 'removed' if n not in after else 'changed'))
                elif n not in may and before_meta.get(n) != after_meta.get(n):
                    o.bad('inputs' if n in case['files'] else 'foreign', 'step %d: the permissions, owner or time of %s changed' % (si, n))
            for r in rs[:1]:
                if len(rs) > 1:
                    o.hashes.append(r.order)
                    o.switches += r.switches
                    o.steps += r.steps
        for a, b in case.get('equal', []):
            fa, fb = os.path.join(self.root, a), os.path.join(self.root, b)
            if os.path.exists(fa) and os.path.exists(fb) and rd(fa) != rd(fb):
                o.bad('unequal', '%s and %s differ: %s' % (a, b, diff(rd(fa), rd(fb))))
        return o

    def disk(self, a):
        p = os.path.join(self.root, a[1])
        if a[0] == 'put':
            self.put(a[1], a[2])
            return
        if a[0] == 'mkdir':
            os.makedirs(p, exist_ok=True)
            return
        if not os.path.isfile(p):
            return
        if a[0] == 'rm':
            os.unlink(p)
        elif a[0] == 'trunc':
            n = os.path.getsize(p)
            os.truncate(p, n * a[2] // 1000)
        elif a[0] == 'zero':              # the size made it to the disk, the data did not
            n = os.path.getsize(p)
            k = n * a[2] // 1000
            with open(p, 'r+b') as f:
                f.truncate(k)
                f.truncate(n)
        elif a[0] == 'grow':
            with open(p, 'ab') as f:
                f.write(b'\0garbage' * a[2])
        elif a[0] == 'ro':
            os.chmod(p, 0o400)


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def diff(a, b):
    n = min(len(a), len(b))
    k = next((i for i in range(n) if a[i] != b[i]), n)
    return '%d/%d bytes, first difference at %d: %r / %r' % (len(a), len(b), k, a[max(0, k - 20):k + 40], b[max(0, k - 20):k + 40])
