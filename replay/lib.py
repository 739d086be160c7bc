"""Concrete runs of the real code: builds drivers against /repo's current sources, runs cases, compares."""
import os, random, subprocess, tempfile, time, math
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VREPO', '/repo')
FLAGS = ['-std=c++11', '-O3', '-ffast-math', '-fwrapv', '-march=native', '-include', 'iterator', '-include', 'limits', '-w']
LIBS = ['ecdf1_mns2016', 'ecdf1_new', 'ecdf2', 'fftwconvolver', 'string_utils', 'read_boundaries_file', 'poisson_pmf', 'common']

class BuildError(Exception): pass
class Failure:
    def __init__(s, what, repro): s.what, s.repro = what, repro

def compile_to(out, srcs, flags=FLAGS, libs=('-lfftw3',), cxx='g++', inc=True):
    """compile each source separately (in parallel) and link"""
    if cxx == 'g++' and any(f.startswith('-fsanitize') for f in flags):   # gcc does not check accesses to complex numbers
        try: return compile_to(out, srcs, flags, libs, 'clang++', inc)
        except BuildError: pass
    objs = []; ps = []
    for k, f in enumerate(srcs):
        o = '%s.%d.o' % (out, k); objs.append(o)
        ps.append(subprocess.Popen([cxx, '-c', '-o', o, f, '-I', os.path.join(REPO, 'src')] + list(flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    bad = ''
    for p in ps:
        t, _ = p.communicate()
        if p.returncode: bad += t
    if bad: raise BuildError(bad[-3000:])
    lf = [f for f in flags if f.startswith('-fsanitize') or f.startswith('-march') or f == '-g']
    p = subprocess.run([cxx, '-o', out] + objs + lf + list(libs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise BuildError(p.stdout[-3000:])
    return out

def src(*names): return [os.path.join(REPO, 'src', n) for n in names]

def run_lines(exe, lines, timeout=120, env=None):
    """feed the lines; {id: rest of output line}.  A case during which the program dies gets 'DIED <signal>'"""
    out = {}
    todo = list(lines)
    t0 = time.time()
    while todo:
        try:
            p = subprocess.run([exe], input='\n'.join(todo) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=max(5, timeout - (time.time() - t0)), env=env)
            rc, so, se = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, so, se = 'timeout', (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or ''), ''
        got = set()
        for l in so.splitlines():
            a = l.split(' ', 1)
            if len(a) == 2: out[a[0]] = a[1]; got.add(a[0])
        rest = [l for l in todo if l.split(' ', 1)[0] not in got]
        if not rest: break
        if rc == 0: se = 'the process ended during this case'
        if rc == 9: se = 'the process no longer reads its input (memory corrupted)'
        if rc == 'timeout': out[rest[0].split(' ', 1)[0]] = 'DIED timeout'; break
        key = [l.strip() for l in se.splitlines() if 'ERROR:' in l or 'runtime error:' in l or 'ssertion' in l or 'SUMMARY' in l]
        out[rest[0].split(' ', 1)[0]] = 'DIED %s %s' % (rc, (' | '.join(key) or se.strip()[-300:].replace('\n', ' | '))[:400])
        todo = rest[1:]
        if time.time() - t0 > timeout: break
    return out

def fmt(v): return '%d%s' % (len(v), ''.join(' %.17g' % x for x in v))
def line(id, al, b, B): return '%s %s %s %s' % (id, al, fmt(b), fmt(B))
