"""Builds the code under test from the working tree of the repository, and the simulators that drive it."""
import fcntl
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
INC = os.path.join(REPO, 'src/easyMockFramework/include')
SIM = os.path.join(VERIF, 'sim')


class Broken(Exception):
    """The machinery (not the property) failed."""


class Tree:
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise Broken('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def build(quiet=False):
    t0 = time.time()
    d = os.path.join(BUILD, 'repo')
    os.makedirs(d, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = dict(os.environ)
    if os.environ.get('VERIF_CCACHE'):
        env['CCACHE_DIR'] = '/tmp/w/ccache'
    env.pop('DESTDIR', None)
    if not os.path.exists(os.path.join(d, 'build.ninja')):
        run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++',
             '-DCMAKE_BUILD_TYPE=ReleaseWithTest', '-DLLVM_DEFAULT_VERSION=14', '-DLLVM_PATH=/usr/lib/llvm-14',
             '-DCMAKE_PROJECT_EasyMock_INCLUDE=/opt/vp/cmake/local-googletest.cmake',
             '-DCMAKE_C_COMPILER_LAUNCHER=' + os.path.join(VERIF, 'tools/launch.sh'),
             '-DCMAKE_CXX_COMPILER_LAUNCHER=' + os.path.join(VERIF, 'tools/launch.sh')], env=env)
    objs = []
    for o, src, cmd in ((os.path.join(BUILD, 'simrt.o'), 'simrt.cpp', ['g++', '-std=c++17', '-O1']),
                        (os.path.join(BUILD, 'simgen.so'), 'simgen.c', ['gcc', '-O1', '-g', '-shared', '-fPIC'])):
        src = os.path.join(SIM, src)
        if os.path.exists(src) and newer(o, [src, os.path.join(SIM, 'simabi.h'), os.path.abspath(__file__), os.path.join(INC, 'easyMock.h')]):
            cmd = cmd + ['-w', '-I', SIM, '-I', INC, src, '-o', o + '.tmp'] + (['-c'] if o.endswith('.o') else ['-ldl'])
            objs.append((o, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    try:
        run(['ninja', '-C', d, 'EasyMockGenerate', 'EasyMockFramework'], env=env)
    finally:
        outs = [(o, c, p.communicate()[0], p.returncode) for o, c, p in objs]
    for o, c, txt, rc in outs:
        if rc:
            raise Broken('%s\n%s' % (' '.join(c), txt[-4000:]))
        os.rename(o + '.tmp', o)
    t = Tree()
    t.gen = os.path.join(d, 'EasyMockGenerate')
    so = subprocess.run(['find', d, '-name', 'libEasyMockFramework.so'], stdout=subprocess.PIPE, text=True).stdout.split()
    if not os.path.exists(t.gen) or not so:
        raise Broken('build products missing')
    t.fwdir = os.path.dirname(so[0])
    t.fw = so[0]
    t.simrt = os.path.join(BUILD, 'simrt')
    if newer(t.simrt, [os.path.join(BUILD, 'simrt.o'), t.fw]):
        run(['g++', os.path.join(BUILD, 'simrt.o'), '-o', t.simrt, '-rdynamic', '-ldl',
             '-L', t.fwdir, '-lEasyMockFramework', '-Wl,-rpath,' + t.fwdir])
    t.simgen = os.path.join(BUILD, 'simgen.so')
    fcntl.flock(lock, fcntl.LOCK_UN)
    t.build_s = time.time() - t0
    return t


def newer(out, deps):
    if not os.path.exists(out):
        return True
    m = os.path.getmtime(out)
    return any(os.path.exists(d) and os.path.getmtime(d) > m for d in deps)


if __name__ == '__main__':
    t = build()
    print(t.gen, t.fw, '%.1fs' % t.build_s)
