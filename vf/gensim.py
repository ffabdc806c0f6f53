"""Driver of the simulated environment of the generator (sim/simgen.c)."""
import os
import socket
import subprocess

from .build import Broken


class Proc:
    """One simulated generator process."""
    def __init__(self, cwd, args, env=None, faults=(), cls=(), heap=0, clock=None, alloc=None, maxev=60000):
        self.cwd = cwd
        self.args = list(args)
        self.env = dict(env) if env is not None else {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent'}
        self.faults = list(faults)      # (group, class, nth, action, value, repeat)
        self.cls = list(cls)            # (name, prefix)
        self.heap = heap
        self.clock = clock
        self.alloc = alloc
        self.maxev = maxev
        self.out = self.err = None


class Res:
    pass


class Server:
    def __init__(self, tree, spool):
        self.spool = spool
        os.makedirs(spool, exist_ok=True)
        self.tree = tree
        self.p = None
        self.n = 0

    def start(self):
        a, b = socket.socketpair()
        env = {'PATH': '/usr/bin:/bin'}
        self.p = subprocess.Popen(['setarch', '-R', 'env', 'LD_PRELOAD=' + self.tree.simgen, 'SIMGEN_FD=%d' % b.fileno(), self.tree.gen], env=env, pass_fds=[b.fileno()], stdin=subprocess.DEVNULL, cwd='/')
        b.close()
        self.f = a.makefile('rwb')
        self.s = a

    def stop(self):
        if self.p:
            self.f.close()
            self.s.close()
            self.p.wait()
            self.p = None

    def run(self, procs, sched=0, trace=True):
        if not self.p:
            self.start()
        L = ['new']
        if sched:
            L.append('sched %d' % sched)
        if trace:
            L.append('trace')
        outs = []
        for i, p in enumerate(procs):
            o = os.path.join(self.spool, 'out%d' % i)
            e = os.path.join(self.spool, 'err%d' % i)
            for x in (o, e):
                if os.path.exists(x):
                    os.unlink(x)
            outs.append((o, e))
            L += ['proc', 'cwd ' + p.cwd, 'out ' + o, 'err ' + e]
            L += ['arg ' + a for a in p.args]
            L += ['env %s=%s' % kv for kv in sorted(p.env.items())]
            L += ['cls std /std'] + ['cls %s %s' % c for c in p.cls]
            L += ['fault %s %s %d %s %d %d' % tuple(f) for f in p.faults]
            if p.heap:
                L.append('heap %d' % p.heap)
            if p.clock:
                L.append('clock %d %d' % tuple(p.clock))
            if p.alloc:
                L.append('alloc %d %d' % tuple(p.alloc))
            L.append('maxev %d' % p.maxev)
        L.append('run')
        try:
            self.f.write(('\n'.join(L) + '\n').encode('utf-8', 'surrogateescape'))
            self.f.flush()
            rs = [None] * len(procs)
            sched_trace = []
            while True:
                l = self.f.readline()
                if not l:
                    raise Broken('the simulated generator went away')
                w = l.decode('latin1').split()
                if w[0] == 'S':
                    sched_trace.append(l.decode('latin1')[2:].rstrip('\n'))
                elif w[0] == 'P':
                    r = Res()
                    r.status, r.events, r.hash, r.fired, r.allocs, r.alloc_fired, r.overflow = int(w[2]), int(w[3]), w[4], int(w[5]), int(w[6]), int(w[7]), int(w[8])
                    r.ffired = []
                    r.trace = []
                    rs[int(w[1])] = r
                elif w[0] == 'F':
                    rs[int(w[1])].ffired.append(int(w[3]))
                elif w[0] == 'T':
                    rs[int(w[1])].trace = self.f.read(int(w[2])).decode('latin1').split('\n')[:-1]
                elif w[0] == 'E':
                    order, switches, steps = w[1], int(w[2]), int(w[3])
                    break
        except OSError as e:
            raise Broken('the simulated generator went away: %s' % e)
        self.n += 1
        for r, (o, e) in zip(rs, outs):
            r.stdout = rd(o)
            r.stderr = rd(e)
            if r.status == 97:
                raise Broken('the simulator could not set up a process: %s' % r.stderr)
            r.order, r.switches, r.steps, r.sched_trace = order, switches, steps, sched_trace
        return rs


def rd(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except OSError:
        return None
