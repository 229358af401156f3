#!/usr/bin/env python3
"""Builds one simulation binary from /repo's working tree. Usage: build.py TARGET [OUTDIR]"""
import os, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('SIM_REPO', '/repo')
OUT = os.environ.get('SIM_OUT', os.path.join(V, 'build'))
WRAPS = '''memcpy memmove memset memcmp strlen strcmp clock_gettime gettimeofday time nanosleep clock_nanosleep usleep sleep
sched_yield pthread_yield sched_getcpu pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock
pthread_mutex_unlock pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock
pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock pthread_cond_init pthread_cond_destroy
pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast pthread_create pthread_join
pthread_detach pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock
mmap munmap mlock backtrace localtime_r strftime __assert_fail abort exit'''.split()
LINK = ['-static', '-no-pie'] + ['-Wl,--wrap=' + w for w in WRAPS]
RTFLAGS = ['-O2', '-g', '-fno-stack-protector', '-fno-pie', '-std=c++17', '-fno-builtin', '-Wall', '-Wno-unused', '-Wno-nonnull']
INST = ['-O1', '-g', '-fno-pie', '-fsanitize=thread', '-march=native', '-fno-builtin-memcpy', '-fno-builtin-memmove',
        '-fno-builtin-memset', '-fno-builtin-memcmp', '-fno-builtin-strlen', '-fno-builtin-strcmp', '-fno-builtin-malloc', '-fno-builtin-free', '-fno-builtin-calloc', '-w',
        '-include', V + '/sim/simpre.h', '--param', 'tsan-instrument-func-entry-exit=0',
        '-I' + V + '/stubs', '-I' + V + '/sim']
TARGETS = {}
def target(name, srcs, flags=(), props='', cxx='17', link=()):
    TARGETS[name] = dict(srcs=srcs, flags=list(flags), cxx=cxx, link=list(link), props=props.split())
H = V + '/harness/'
exec(open(V + '/sim/targets.py').read())

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(' '.join(cmd) + '\n' + p.stdout[-6000:] + '\n')
        raise SystemExit(3)
def build(name):
    t = TARGETS[name]
    d = os.path.join(OUT, name); os.makedirs(d, exist_ok=True)
    rt = os.path.join(OUT, 'rt-' + name); os.makedirs(rt, exist_ok=True)
    jobs = []; objs = []
    for s in ('rt.cc', 'lin.cc', 'driver.cc'):
        o = os.path.join(rt, s + '.o'); objs.append(o)
        src = os.path.join(V, 'sim', s)
        jobs.append(['g++'] + RTFLAGS + (['-mgeneral-regs-only'] if False else []) + ['-c', src, '-o', o])
    for i, s in enumerate(t['srcs']):
        extra = []
        if isinstance(s, tuple): s, extra = s[0], list(s[1])
        o = os.path.join(d, '%d-%s.o' % (i, os.path.basename(s))); objs.append(o)
        if 'NOINST' in extra:
            extra.remove('NOINST')
            jobs.append(['g++', '-std=c++17'] + RTFLAGS + ['-I' + V + '/sim', '-I' + V + '/stubs'] + t['flags'] + extra + ['-c', s, '-o', o]); continue
        cc = ['gcc', '-std=gnu11'] if s.endswith('.c') else ['g++', '-std=gnu++' + t['cxx']]
        jobs.append(cc + INST + t['flags'] + extra + ['-c', s, '-o', o])
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(run, jobs))
    b = os.path.join(d, 'sim')
    run(['g++'] + LINK + ['-o', b] + objs + t['link'] + ['-lpthread'])
    return b
if __name__ == '__main__':
    for n in (sys.argv[1:] or TARGETS): print(build(n))
