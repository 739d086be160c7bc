"""Bounded conformance runs of the real code (the concrete side of every check).  Each function returns
(evaluations, list of Failure, note)."""
import os, random, re, shutil, stat, ctypes, math, subprocess, time
from .lib import *
from . import ecdf as E

class Run:
    def __init__(s, tmp, seed, depth): s.tmp, s.seed, s.depth = tmp, seed, depth; s.exe = {}; s.notes = []
    def rng(s, salt): return random.Random('%s/%s' % (s.seed, salt))
    def build(s, name, srcs, **kw):
        if name not in s.exe:
            try: s.exe[name] = compile_to(os.path.join(s.tmp, name), srcs, **kw)
            except BuildError as e: s.exe[name] = e
        if isinstance(s.exe[name], BuildError): raise s.exe[name]
        return s.exe[name]
    def oracle(s): return s.build('oracle', [os.path.join(HERE, 'oracle.cc')], flags=['-O2', '-w'], libs=())
ENV = dict(os.environ, MALLOC_PERTURB_='165')
SAN = ['-std=c++11', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-march=native', '-include', 'iterator', '-include', 'limits', '-w']
SANENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:max_malloc_fill_size=1000000000:malloc_fill_byte=165', UBSAN_OPTIONS='print_stacktrace=0')
LIBSRC = ['ecdf1_mns2016.cc', 'ecdf1_new.cc', 'ecdf2.cc', 'fftwconvolver.cc', 'string_utils.cc', 'poisson_pmf.cc', 'common.cc']

def parallel(exe, lines, timeout, env, n=8):
    import concurrent.futures as cf
    r = {}
    with cf.ThreadPoolExecutor(n) as ex:
        for d in ex.map(lambda ch: run_lines(exe, ch, timeout, env) if ch else {}, [lines[k::n] for k in range(n)]): r.update(d)
    return r
def descr(al, b, B): return '%s b=[%s] B=[%s]' % (al, ', '.join('%.17g' % x for x in b), ', '.join('%.17g' % x for x in B))

ALGS = ['two-direct', 'two-fft', 'new-b', 'new-B', 'mns-b', 'mns-B']
TOL = 1e-9
def shrink_note(al, b, B): return descr(al, b, B)

def ecdf(R, algs, san=False):
    """values of the probability functions against the oracle"""
    rng = R.rng('ecdf' + ','.join(algs))
    d = R.depth * 6 // len(algs)
    cs = E.cases(rng, algs, 150 * d if not san else 60 * d, 6 * d if not san else 3 * d)
    exp = E.expected(cs, R.oracle())
    exe = R.build('ecdf_san' if san else 'ecdf', [os.path.join(HERE, 'drv_ecdf.cc')] + src(*LIBSRC), **({'flags': SAN} if san else {}))
    got = parallel(exe, [E.line(i, al, b, B) for i, al, b, B in cs], 200, SANENV if san else ENV)
    bad = []; nt = 0
    for i, al, b, B in cs:
        e = exp.get(i); g = got.get(i)
        if e is None or g is None: R.notes.append('case skipped'); continue
        if 1e-9 < e < 1 - 1e-9: nt += 1
        f = g.split()
        if f[0] != 'ok': bad.append(Failure('%s instead of %.12g' % (g, e), descr(al, b, B))); continue
        v = float(f[1])
        if 'input-changed' in g: bad.append(Failure('the boundary lists given were changed', descr(al, b, B)))
        elif not abs(v - e) <= TOL or (al.startswith('two-direct') and e > 1e-250 and not abs(v - e) <= 1e-8 * e):
            bad.append(Failure('%.17g instead of %.12g' % (v, e), descr(al, b, B)))
    return len(cs), nt, bad, [descr(*c[1:])[:300] + ' -> ' + got.get(c[0], '?') for c in cs[40:43]]

def unsafe(f): return f.what.startswith('DIED') or 'wrote outside' in f.what or (f.what.startswith('err') and 'runtime_error' not in f.what)
def safety(R):
    """address/undefined sanitizers, crashes, hangs; results that depend on what was in freshly allocated memory"""
    n = nt = 0; bad = []; sm = []
    for fn, a in ((ecdf, (ALGS, True)), (fft, (True,)), (pois, (True,))):
        x, y, f, s = fn(R, *a); n += x; nt += y; bad += [g for g in f if unsafe(g)]; sm += s[:1]
    rng = R.rng('safety'); cs = E.cases(rng, ALGS, 60 * R.depth, 6 * R.depth); runs = []
    for nm, flags in (('ecdf', FLAGS), ('ecdf_san', SAN)):
        exe = R.build(nm, [os.path.join(HERE, 'drv_ecdf.cc')] + src(*LIBSRC), flags=flags)
        for fill in (165, 0) if nm == 'ecdf' else (63,):
            env = dict(ENV, MALLOC_PERTURB_=str(fill)) if nm == 'ecdf' else dict(SANENV, ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=1000000000:malloc_fill_byte=63')
            runs.append(parallel(exe, [E.line(*c) for c in cs], 200, env))
    for c in cs:
        g = [r.get(c[0]) for r in runs]
        if None in g: continue
        n += 1
        for x in g:
            if x.startswith('DIED') or (x.startswith('err') and 'runtime_error' not in x): bad.append(Failure(x, descr(*c[1:]))); break
        else:
            v = [float(x.split()[1]) if x.startswith('ok') else None for x in g]
            if any(x is None for x in v): continue
            if max(v) - min(v) > 1e-7 or (any(x != x for x in v) and not all(x != x for x in v)): bad.append(Failure('the result depends on the contents of fresh memory: %s' % g, descr(*c[1:])))
    return n, nt, bad, sm

def validity(R):
    """invalid lists are rejected, valid ones are not"""
    rng = R.rng('valid'); cs = []
    def add(al, b, B, e): cs.append((str(len(cs)), al, b, B, e))
    def isvalid(v): return all(x <= y for x, y in zip(v, v[1:])) and all(0 <= x <= 1 for x in v)
    for _ in range(400 * R.depth):
        n = rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 16, 17, 31, 50, 100, 130])
        b, B = E.pair(rng, n)
        for v in (b, B):
            if not v or rng.random() < .4: continue
            m = rng.randrange(8); i = rng.choice([0, n - 1, rng.randrange(n)])
            if m == 0: v[i] = rng.choice([-1e-12, -0.5, -1e300, 1.0000000001, 1.5, 1e300, -5e-324 * 2 ** 60])
            elif m == 1 and n > 1: j = rng.randrange(n - 1); v[j], v[j + 1] = v[j + 1], v[j]
            elif m == 2: v[-1] = 1 + 2.0 ** -rng.randint(1, 52)
            elif m == 3: v[0] = -2.0 ** -rng.randint(1, 60)
            elif m == 4 and n > 1: v[rng.randrange(1, n)] -= 2.0 ** -rng.randint(1, 50)
            elif m == 5 and n > 1: v[rng.randrange(n - 1)] += 2.0 ** -rng.randint(1, 50)
            elif m == 6 and n > 1: rng.shuffle(v)
        if rng.random() < .15:
            w = rng.choice([b, B]); k = rng.choice([-1, 1, 2]); 
            if k < 0 and w: w.pop(rng.randrange(len(w)))
            elif k > 0: w.extend([1.0] * k)
        for al in ('two-direct', 'two-fft'): add(al, b[:], B[:], len(b) == len(B) and isvalid(b) and isvalid(B))
        for al in ('new-b', 'mns-b'): add(al, b[:], [], isvalid(b))
        for al in ('new-B', 'mns-B'): add(al, [], B[:], isvalid(B))
    exe = R.build('ecdf', [os.path.join(HERE, 'drv_ecdf.cc')] + src(*LIBSRC))
    got = parallel(exe, [E.line(i, al, b, B) for i, al, b, B, e in cs], 200, ENV)
    bad = []; nt = 0
    for i, al, b, B, e in cs:
        g = got.get(i)
        if g is None: continue
        nt += not e
        want = 'ok' if e else 'err runtime_error'
        if not g.startswith(want): bad.append(Failure('%s although the lists are %s' % (g, 'valid' if e else 'not valid'), descr(al, b, B)))
    return len(cs), nt, bad, [descr(*c[1:4])[:300] + ' -> ' + got.get(c[0], '?') for c in cs[60:63]]

def lines_conf(R, name, srcs, lines, what, san=False, timeout=200, **kw):
    exe = R.build(name + ('_san' if san else ''), srcs, **(dict(kw, flags=SAN) if san else kw))
    got = parallel(exe, lines, timeout, SANENV if san else ENV)
    bad = []
    for l in lines:
        i, rest = l.split(' ', 1)
        g = got.get(i)
        if g is None: R.notes.append('case skipped'); continue
        if not g.startswith('ok'): bad.append(Failure(g, '%s: %s' % (what, rest[:2000])))
    return bad

FSIZES = [0, 1, 2, 3, 5, 8, 16, 17, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 255, 256, 257, 400, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1026, 1300, 1535, 1536, 1537, 2047, 2048, 2049, 2050, 2600, 3071, 3072, 3073]
def fft(R, san=False, direct=False):
    rng = R.rng('fft'); ls = []
    for k in range((90 if not san else 40) * R.depth):
        N = rng.choice(FSIZES) if k % 3 else rng.choice(FSIZES[:30])
        cnt = rng.randint(1, 6); ops = []
        for _ in range(cnt):
            s = rng.choice([N, N, max(0, N - 1), rng.randint(0, max(0, N)), min(N, rng.choice(FSIZES)), N + 1, N + rng.randint(1, 2100), min(N, 127), min(N, 128), min(N, 129), min(N, 1024), min(N, 1025)])
            ops.append('%d %d %d' % (s, rng.randrange(36), rng.randrange(10 ** 6)))
        ls.append('%d %d %d %s' % (k, -1 if (direct or k % 9 == 0) else N, cnt, ' '.join(o if not (direct or k % 9 == 0) else o for o in ops)))
    bad = lines_conf(R, 'fft', [os.path.join(HERE, 'drv_fft.cc')] + src('fftwconvolver.cc', 'common.cc'), ls, 'convolver history (N, calls, size kind seed ...)', san)
    return len(ls), sum(' 1' in l for l in ls), bad, ls[5:8]
def pois(R, san=False):
    rng = R.rng('pois'); ls = []
    for k in range((400 if not san else 100) * R.depth):
        M = rng.choice([1, 2, 3, 5, 10, 33, 100, 170, 171, 500, 2000]); cnt = rng.randint(1, 6); ops = []
        for _ in range(cnt):
            l = rng.choice([0.0, 0.0, rng.random(), rng.random() * M, 10 ** rng.uniform(-12, 3.5), -rng.random(), float(M), 5e-324, 1e-300, 1e4, 745.5, 1500.0, -1e-300, 1.0])
            ops.append('%d %.17g' % (rng.choice([0, M, rng.randint(0, M), rng.randint(0, M)]), l))
        ls.append('%d %d %d %s' % (k, M, cnt, ' '.join(ops)))
    bad = lines_conf(R, 'pois', [os.path.join(HERE, 'drv_pois.cc')] + src('poisson_pmf.cc'), ls, 'table requests (capacity, requests, k lambda ...)', san)
    return len(ls), len(ls), bad, ls[5:8]

# ------------------------------------------------------------------ parsing
libc = ctypes.CDLL(None, use_errno=True)
libc.strtod.restype = ctypes.c_double; libc.strtod.argtypes = [ctypes.c_char_p, ctypes.POINTER(ctypes.c_char_p)]
def ref_double(s):
    """value of the longest numeric prefix, None if there is none or it is out of range"""
    s = s.split(b'\0')[0]
    buf = ctypes.create_string_buffer(s); end = ctypes.c_char_p()
    ctypes.set_errno(0)
    a = ctypes.cast(buf, ctypes.c_char_p)
    f = ctypes.CDLL(None, use_errno=True).strtod
    f.restype = ctypes.c_double; f.argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_void_p)]
    e = ctypes.c_void_p(); p = ctypes.addressof(buf)
    v = f(p, ctypes.byref(e)); err = ctypes.get_errno()
    if e.value == p or err or v != v: return None
    return v
def ref_long(s):
    s = s.split(b'\0')[0]
    m = re.fullmatch(rb'[ \t\n\v\f\r]*([+-]?[0-9]+)', s)
    if not m: return None
    v = int(m.group(1))
    return v if -2 ** 63 <= v < 2 ** 63 else None
def ref_list(l):
    if l == b'': return []
    p = l.split(b',')
    if p[-1] == b'': p.pop()
    r = [ref_double(x) for x in p]
    return None if any(x is None for x in r) else r
def ref_file(data):
    """None: error"""
    ls = data.split(b'\n')
    if ls[-1] == b'': ls.pop()      # a final newline ends the last line
    if len(ls) < 2: return None
    b, B = ref_list(ls[0]), ref_list(ls[1])
    return None if b is None or B is None else (b, B)
GOODN = [b'0', b'1', b'0.5', b'0.25', b' 0.75', b'1e-3', b'.5', b'5.', b'+0.1', b'-0', b'-3', b'0x1p-2', b'0.1abc', b'1e', b'0.30000000000000004', b'1e308', b'2.5 ', b'\t.125', b'123456789', b'0.0', b'1E-2', b'000.5', b'0.9999999999999999', b'-1e10', b'inf', b'-Infinity']
BADN = [b'', b' ', b'abc', b'e5', b'-', b'+', b'.', b'1e999', b'-1e999', b'1e-999', b'x1', b'--1', b'"0.5"', b'nan', b'-NaN', b' nan(1)']
def gen_list(rng, ok=None):
    n = rng.choice([0, 1, 2, 3, 5, 8, 30])
    f = [rng.choice(GOODN) if rng.random() < .7 else b'%.17g' % rng.random() for _ in range(n)]
    if ok is False and f: f[rng.randrange(n)] = rng.choice(BADN)
    elif ok is None and f and rng.random() < .3: f[rng.choice([0, n - 1, rng.randrange(n)])] = rng.choice(BADN)
    s = rng.choice([b',', b', ', b' ,']).join(f)
    if rng.random() < .3: s += b','
    if rng.random() < .05: s += b','
    if rng.random() < .05: s = b',' + s
    return s
def show(v): return '%d%s' % (len(v), ''.join(' %.17g' % x for x in v))
def hx(s): return 'x' + s.hex()
def scratch_files(R, rng, count, gen):
    """(path, contents or None) of files written into the run's scratch directory"""
    d = os.path.join(R.tmp, 'files'); os.makedirs(d, exist_ok=True); out = []
    for k in range(count):
        p = os.path.join(d, 'f%d_%d' % (len(os.listdir(d)), k)); c = gen(rng)
        with open(p, 'wb') as f: f.write(c)
        out.append((p, c))
    return out
def gen_file(rng):
    k = rng.randrange(14)
    if k == 0: return b''
    if k == 1: return gen_list(rng, True)
    if k == 2: return gen_list(rng, True) + b'\n'
    if k == 3: return b'\n' + gen_list(rng, True)
    if k == 4: return b'\n\n'
    if k == 5: return b'\n'
    eol = b'\n'
    body = gen_list(rng) + eol + gen_list(rng)
    if k == 6: return body + b'\nextra, line\n'
    if k == 7: return body + b'\n\n'
    if k == 8: return gen_list(rng, True) + b'\n' + gen_list(rng, False) + b'\n'
    if k == 9: return gen_list(rng, False) + b'\n' + gen_list(rng, True) + b'\n'
    if k == 10: return gen_list(rng, True) + b'\r\n' + gen_list(rng, True) + b'\r\n'
    return body + rng.choice([b'', b'\n'])
def parsing(R):
    rng = R.rng('parse'); ls = []; exp = {}
    def add(op, s, e):
        i = str(len(ls)); ls.append('%s %s %s' % (i, op, hx(s))); exp[i] = (op, s, e)
    nul = lambda s: s.replace(b'\0', b'')
    for _ in range(500 * R.depth):
        s = rng.choice(GOODN + BADN) if rng.random() < .5 else bytes(rng.choice(b'0123456789.eE+-x ,ap') for _ in range(rng.randint(0, 7)))
        e = ref_double(s); add('dbl', s, None if e is None else '%.17g' % e)
        s = rng.choice([b'0', b'1', b'-1', b'12', b' 7', b'7 ', b'+9', b'', b'abc', b'3x', b'0x10', b'9223372036854775807', b'9223372036854775808', b'-9223372036854775808', b'-9223372036854775809', b'1e3', b'1.5', b'--2', b'0005', b'99999999999999999999', b'1,2', b' ', b'-', b'\n4']) if rng.random() < .6 else bytes(rng.choice(b'0123456789-+ x') for _ in range(rng.randint(0, 6)))
        e = ref_long(s); add('long', s, None if e is None else str(e))
        s = bytes(rng.choice(b'a1,,. ') for _ in range(rng.randint(0, 9)))
        p = s.split(b','); add('split', s, '%d%s' % (len(p), ''.join(' ' + hx(x) for x in p)))
        s = gen_list(rng); e = ref_list(s); add('list', s, None if e is None else show(e))
    for p, c in scratch_files(R, rng, 300 * R.depth, gen_file):
        e = ref_file(c); add('file', p.encode(), None if e is None else show(e[0]) + ' | ' + show(e[1]))
        exp[str(len(ls) - 1)] = ('file', c, exp[str(len(ls) - 1)][2])
    add('file', os.path.join(R.tmp, 'no-such-file').encode(), None); add('file', b'', None); add('file', R.tmp.encode(), None)
    exe = R.build('io', [os.path.join(HERE, 'drv_io.cc')] + src('string_utils.cc', 'read_boundaries_file.cc'))
    got = parallel(exe, ls, 100, ENV)
    bad = []; nt = 0
    for i, (op, s, e) in exp.items():
        g = got.get(i)
        if g is None: continue
        nt += e is None
        if e is None: ok = g.startswith('err') and g != 'err other'
        else: ok = same_numbers(g, 'ok ' + e)
        if not ok: bad.append(Failure('%s instead of %s' % (g, 'an error' if e is None else e), '%s of %r' % (op, s)))
    return len(ls), nt, bad, [ls[k] + ' -> ' + got.get(str(k), '?') for k in (3, 7, 11)]
def same_numbers(a, b):
    if a == b: return True
    x, y = a.split(' '), b.split(' ')
    if len(x) != len(y): return False
    for p, q in zip(x, y):
        if p == q: continue
        try:
            if float(p) != float(q) and not (math.isnan(float(p)) and math.isnan(float(q))): return False
        except ValueError: return False
    return True

# ------------------------------------------------------------------ command lines
def objs_build(R, name, files):
    """the program, built as the Makefile builds it (in the scratch directory)"""
    return R.build(name, src(*files))
CP = ['crossprob.cc'] + ['ecdf1_mns2016.cc', 'ecdf1_new.cc', 'ecdf2.cc', 'fftwconvolver.cc', 'string_utils.cc', 'read_boundaries_file.cc', 'poisson_pmf.cc', 'common.cc']
MC = ['crossprob_mc.cc', 'string_utils.cc', 'read_boundaries_file.cc', 'tinymt64.cc', 'common.cc']
def run_cli(exe, args, cwd, timeout=60):
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, timeout=timeout)
        return p.returncode, p.stdout.decode('latin1'), p.stderr.decode('latin1')
    except subprocess.TimeoutExpired: return 'timeout', '', ''
def a_number(t):
    t = t.strip()
    try: float(t); return True
    except ValueError: return t in ('-nan', 'nan', 'inf')
def judge(r, expect, tol):
    """None if fine"""
    rc, so, se = r
    lines = [l for l in so.splitlines() if l.strip()]
    if expect is None:
        if rc == 0: return 'exit status 0 and output %r for a wrong use' % so[-120:]
        if not isinstance(rc, int) or rc < 0 : return 'ends with %s instead of an error message' % rc
        if rc > 125: return 'exit status %s' % rc
        if not (so + se).strip(): return 'no error message'
        for l in lines:
            if a_number(l): return 'prints the number %s for a wrong use' % l
        return None
    if rc != 0: return 'exit status %s, output %r, instead of the probability %.8g' % (rc, (so + se)[-160:], expect)
    if len(lines) != 1 or not a_number(lines[0]): return 'output %r instead of the probability %.8g' % (so[-160:], expect)
    if not abs(float(lines[0]) - expect) <= tol(expect): return 'prints %s instead of %.8g' % (lines[0], expect)
    return None
def text(v, rng): return rng.choice([', ', ',']).join('%.17g' % x for x in v).encode() + (b',' if v and rng.random() < .3 else b'')
def cli(R):
    """crossprob end to end"""
    exe = objs_build(R, 'crossprob', CP)
    rng = R.rng('cli'); d = os.path.join(R.tmp, 'cli'); os.makedirs(d, exist_ok=True); cs = []
    names = ['ecdf2-ks2001', 'ecdf2-mn2017', 'ecdf1-mns2016', 'ecdf1-new']
    def near(names):
        for w in names:
            for v in (w[:-1], w[:-2], w[:len(w) // 2], w + 'x', w + '2', w + '-', ' ' + w, w + ' ', 'x' + w, w[1:], w.upper(), w.replace('-', ''), w.replace('-', '_'), w[:-1] + chr(ord(w[-1]) + 1), w + w, w[::-1]):
                if v not in names: yield w, v
    with open(os.path.join(d, 'one.txt'), 'wb') as h: h.write(b'0.1,0.2,0.35\n\n')
    for w, v in near(names): cs.append((v, [v, 'one.txt'], b'0.1,0.2,0.35\n\n', 'one.txt'))
    for k in range(110 * R.depth):
        f = 'file%d.txt' % k; n = rng.choice([0, 1, 2, 3, 4, 5, 7, 10, 16, 30, 49, 64])
        b, B = E.pair(rng, n); al = rng.choice(names); m = rng.randrange(12)
        if k % 11 == 5:       # a tiny probability: the direct algorithm adds positive terms, the FFT does not resolve it
            n = rng.choice([5, 8, 10, 16]); al = 'ecdf2-ks2001'; m = rng.choice([0, 3, 9]); g = 10 ** -rng.uniform(1, 4 if m == 9 else 7)
            b = sorted(max(0.0, (i + .5) / n - g / n) for i in range(n)) if m == 9 else sorted(1 - g * rng.random() for i in range(n))
            B = sorted(min(1.0, (i + .5) / n + g / n) for i in range(n)) if m == 9 else sorted(g * rng.random() for i in range(n))
            if rng.random() < .7:
                n = rng.choice([180, 200, 250]); m = rng.choice([0, 3, 9]); g = rng.uniform(.15, .4); b = sorted(1 - g + g * i / n for i in range(n)); B = [1.0] * n if m else sorted(g * (i + 1) / n for i in range(n))
        if m <= 2: b = []
        elif m <= 5: B = []
        elif m == 6 and b: (b if rng.random() < .5 else B).pop()
        elif m == 7 and b: rng.choice([b, B])[rng.choice([0, -1])] = rng.choice([-.1, 1.1])
        elif m == 8 and n > 1: rng.choice([b, B]).reverse()
        data = text(b, rng) + b'\n' + text(B, rng) + rng.choice([b'\n', b''])
        if b == [] and B == [] : data = b'\n\n'
        args = [al, f]
        x = rng.randrange(22)
        if x == 0: args = rng.choice([[], [al], [al, f, f], [al, f, '10'], ['-h'], ['--help', f, 'x', 'y']])
        elif x == 1: args = [rng.choice(['ecdf2', 'ecdf1_new', 'ECDF1-NEW', '', 'ecdf2-ks2001 ', 'ecdf2-ks200', 'poisson', 'ecdf1-m2020']), f]
        elif x == 2: args = [al, 'missing.txt']
        elif x == 3: data = gen_file(rng)
        elif x == 4: data = text(b, rng)
        elif x == 5: args = [al, '.']
        with open(os.path.join(d, f), 'wb') as h: h.write(data)
        cs.append((str(k), args, data, f))
    def expectation(c):
        i, args, data, f = c
        if len(args) != 2 or args[0] not in names or args[1] != f: return None
        p = ref_file(data)
        if p is None: return None
        b, B = p
        ok = lambda v: all(x <= y for x, y in zip(v, v[1:])) and all(0 <= x <= 1 for x in v)
        if not ok(b) or not ok(B) or any(math.isnan(x) for x in b + B): return None
        if args[0].startswith('ecdf1'):
            if bool(b) == bool(B): return None
        elif b and B and len(b) != len(B): return None
        n = max(len(b), len(B))
        return b or [0.0] * n, B or [1.0] * n
    exps = {c[0]: expectation(c) for c in cs}
    vals = E.expected([(i, 'two', e[0], e[1]) for i, e in exps.items() if e is not None], R.oracle())
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex: got = list(ex.map(lambda c: run_cli(exe, c[1], d), cs))
    bad = []; nt = 0
    for c, g in zip(cs, got):
        e = vals[c[0]] if exps[c[0]] is not None else None
        nt += e is None
        direct = c[1][:1] == ['ecdf2-ks2001'] and e is not None and e > 1e-250
        w = judge(g, e, lambda e: 6e-6 * abs(e) + (0 if direct else 1e-9))
        if w: bad.append(Failure(w, 'crossprob %s   with %s containing %r' % (' '.join(map(repr, c[1])), c[3], c[2])))
    return len(cs), nt, bad, ['crossprob %s  %r -> %r' % (c[1], c[2][:100], g[:2]) for c, g in list(zip(cs, got))[:3]]

def poisson_process(b, B, lam):
    """Pr of not crossing for a Poisson process of intensity lam (jumps x_1<=x_2..): at least len(B) jumps, at most
    len(b) if b is not empty, b_i <= x_i <= B_i"""
    pts = sorted(set(b) | set(B) | {1.0}); cap = len(b) if b else len(B) + int(lam + 12 * lam ** .5 + 40)
    pts = [p for p in pts if 0 <= p <= 1]
    if any(x > 1 for x in b) or any(x < 0 for x in B): return None
    q = [1.0] + [0.0] * cap; t = 0.0
    for s in pts:
        l = lam * (s - t); w = [math.exp(-l)]
        for k in range(1, cap + 1): w.append(w[-1] * l / k)
        lo = sum(1 for x in B if x <= s); hi = sum(1 for x in b if x < s) if b else cap
        if s == 1.0: lo = len(B); hi = min(hi + sum(1 for x in b if x >= 1.0), cap) if b else cap
        # lower boundary elements at 1 are met only by jumps at 1, which have probability 0
        if s == 1.0 and b: hi = sum(1 for x in b if x < 1.0)
        r = [0.0] * (cap + 1)
        for m in range(lo, hi + 1): r[m] = sum(q[m - k] * w[k] for k in range(m + 1))
        q = r; t = s
    return sum(q)
def mc_cli(R):
    """crossprob_mc end to end: errors exactly, estimates statistically (6 standard errors)"""
    exe = objs_build(R, 'crossprob_mc', MC)
    rng = R.rng('mccli'); d = os.path.join(R.tmp, 'mccli'); os.makedirs(d, exist_ok=True); cs = []
    with open(os.path.join(d, 'one.txt'), 'wb') as h: h.write(b'0.1,0.2,0.35\n\n')
    for w in ('ecdf', 'poisson'):
        for v in (w[:-1], w[:-2], w + 'x', w + '2', w + ' ', ' ' + w, 'x' + w, w[1:], w.upper(), w[:-1] + chr(ord(w[-1]) + 1), w + w, w[::-1], w[0], ''):
            cs.append(('m' + w + v, [v, 'one.txt', '10'], b'0.1,0.2,0.35\n\n', 'one.txt'))
    for k in range(90 * R.depth):
        f = 'file%d.txt' % k; n = rng.choice([0, 1, 2, 3, 4, 6, 10, 20])
        b, B = E.pair(rng, n); m = rng.randrange(10); mode = rng.choice(['ecdf', 'poisson']); sims = rng.choice([1, 10, 200, 2000, 20000, 40000])
        if m <= 1: b = []
        elif m <= 3: B = []
        elif m == 4 and b: b.pop()
        elif m == 5 and B: B.pop()
        elif m == 6: b = [0.0] * n; B = [1.0] * n
        data = text(b, rng) + b'\n' + text(B, rng) + rng.choice([b'\n', b''])
        if not b and not B: data = b'\n\n'
        args = [mode, f, str(sims)]; x = rng.randrange(16)
        if x == 0: args = rng.choice([[], [mode], [mode, f], [mode, f, '10', '10'], [mode, '5', f, '10']])
        elif x == 1: args = [rng.choice(['binomial', '', 'ECDF', 'ecdf ', 'poiss', 'ecdf2']), f, '10']
        elif x == 2: args = [mode, 'missing.txt', '10']
        elif x in (3, 4): args = [mode, f, rng.choice(['', 'abc', '10x', '1e3', '1.5', '-1', '-5', '99999999999999999999', '9223372036854775808', '10 ', ' ', '0x10', '--5', '-9223372036854775808', '+', '1,000'])]
        elif x == 5: data = gen_file(rng); args[2] = '10'
        with open(os.path.join(d, f), 'wb') as h: h.write(data)
        cs.append((str(k), args, data, f))
    def expectation(c):
        i, args, data, f = c
        if len(args) != 3 or args[0] not in ('ecdf', 'poisson') or args[1] != f: return None
        s = ref_long(args[2].encode()); p = ref_file(data)
        if s is None or s < 0 or p is None: return None
        return p + (s,)
    exps = {c[0]: expectation(c) for c in cs}
    ok = lambda v: all(x <= y for x, y in zip(v, v[1:])) and all(0 <= x <= 1 for x in v)
    q = {}
    for c in cs:
        e = exps[c[0]]
        if e is None or not ok(e[0]) or not ok(e[1]): continue
        b, B, s = e; n = max(len(b), len(B))
        if c[1][0] == 'ecdf':
            if (b and len(b) < n): q[c[0]] = 0.0
            else: q[c[0]] = (c[0], 'two', b or [0.0] * n, B + [1.0] * (n - len(B)))
        elif n > 0: q[c[0]] = poisson_process(b, B, n) if not (b and len(b) < len(B)) else 0.0
    vals = E.expected([v for v in q.values() if isinstance(v, tuple)], R.oracle())
    for k, v in list(q.items()):
        if isinstance(v, tuple): q[k] = vals[k]
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex: got = list(ex.map(lambda c: run_cli(exe, c[1], d), cs))
    bad = []; nt = 0
    for c, g in zip(cs, got):
        e = exps[c[0]]
        nt += e is None
        if e is not None and c[0] not in q: continue
        if e is None: w = judge(g, None, None)
        else:
            s = max(1, e[2]); p = q[c[0]]
            w = judge(g, p, lambda p: 6 * math.sqrt(max(p * (1 - p), 1e-12) / s) + 1.5 * (0 < p < 1) * 40 / s + 2e-6)
        if w: bad.append(Failure(w, 'crossprob_mc %s   with %s containing %r' % (' '.join(map(repr, c[1])), c[3], c[2])))
    return len(cs), nt, bad, ['crossprob_mc %s  %r -> %r' % (c[1], c[2][:100], g[:2]) for c, g in list(zip(cs, got))[:3]]

def mc_build(R):
    d = os.path.join(R.tmp, 'mcsrc'); os.makedirs(d, exist_ok=True)
    for f in ('drv_mc.cc', ): shutil.copy(os.path.join(HERE, f), d)
    shutil.copy(os.path.join(REPO, 'src', 'crossprob_mc.cc'), d); shutil.copy(os.path.join(HERE, 'fake_tinymt64.h'), os.path.join(d, 'tinymt64.h'))
    return [os.path.join(d, 'drv_mc.cc')] + src('string_utils.cc', 'read_boundaries_file.cc', 'common.cc')
MCFLAGS = [f for f in FLAGS if f != '-ffast-math']
def mc_cross(R, san=False):
    rng = R.rng('cross'); ls = []
    for k in range(1500 * R.depth):
        ns = rng.choice([0, 1, 2, 3, 4, 6]); nb = rng.choice([0, 0, ns, ns, max(0, ns - 1), ns + 1, ns + 2, 1]); nB = rng.choice([0, ns, ns, max(0, ns - 1), ns + 1, 1])
        g = rng.choice([4, 8, 10 ** 6]); q = lambda n: sorted(rng.randint(0, g) / g for _ in range(n))
        s = q(ns); b = q(nb); B = q(nB)
        if rng.random() < .6:     # mostly non-crossing, then one element changed
            b = [x * rng.choice([1, rng.random()]) for x in s[:nb]] + [1.0] * (nb - ns); B = [min(1, x + rng.choice([0, rng.random() / 3])) for x in s[:nB]] + [1.0] * (nB - ns)
            if rng.random() < .6:
                w = rng.choice([b, B]); 
                if w: i = rng.choice([0, -1, rng.randrange(len(w))]); w[i] = rng.choice([w[i] - .01, w[i] + .01, s[min(len(s) - 1, i % len(w))] if s else w[i]])
        ls.append('%d cross %s %s %s' % (k, fmt(s), fmt(b), fmt(B)))
    bad = lines_conf(R, 'mc', mc_build(R), ls, 'realisation, b, B', san)
    return len(ls), len(ls), bad, ls[5:8]
def mc_freq(R, san=False):
    rng = R.rng('freq'); ls = []
    for k in range(260 * R.depth):
        n = rng.choice([0, 1, 2, 3, 5, 10, 40]); b, B = E.pair(rng, n); m = rng.randrange(8)
        if m <= 1: b = []
        elif m <= 2: B = []
        elif m == 3 and b: b.pop()
        elif m == 4 and B: B.pop()
        elif m == 5: b = b + [1.0]
        elif m == 6: B = B + [1.0]
        sims = rng.choice([1, 2, 3, 17, 300]); ext = rng.choice([0, 0, 0, 7, 50])
        if rng.random() < .5: ls.append('%d ecdf %d %s %s %d %d %d' % (k, n, fmt(b), fmt(B), sims, rng.randrange(10 ** 6), ext))
        else: ls.append('%d poi %.17g %s %s %d %d %d' % (k, rng.choice([max(n, 1), max(1, n / 2), rng.uniform(.5, 20)]), fmt(b), fmt(B), sims, rng.randrange(10 ** 6), ext))
    bad = lines_conf(R, 'mc', mc_build(R), ls, 'simulation (mode, n or intensity, b, B, simulations, seed)', san)
    return len(ls), len(ls), bad, ls[5:8]
PARAMS = [(0xfa051f40, 0xffd0fff4, 0x58d02ffeffbfffbc)]
def tiny(R, san=False):
    rng = R.rng('tiny'); ls = []
    r64 = lambda: rng.choice([rng.getrandbits(64), rng.getrandbits(64), 0, 1, 2 ** 64 - 1, 2 ** 63, rng.getrandbits(8), 2 ** rng.randrange(64)])
    for k in range(3000 * R.depth):
        p = PARAMS[0] if rng.random() < .5 else (rng.choice([rng.getrandbits(32), 0, 2 ** 32 - 1]), rng.choice([rng.getrandbits(32), 0, 2 ** 32 - 1]), r64())
        op = rng.choice(['seed', 'array', 'state'])
        if op == 'seed':
            s = r64()
            v = [s]
        elif op == 'array': v = [r64() for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 20]))]
        else: v = [r64(), r64()]
        ls.append('%d %s %s %x %s' % (k, op, ' '.join('%x' % x for x in p), len(v), ' '.join('%x' % x for x in v)))
    for want in (2 ** 64 - 1, 2 ** 64 - 512, 0, 1, 2 ** 64 - 2 ** 11, 4095, 2 ** 64 - 4096):   # states chosen so that an output is extreme
        for p in PARAMS:
            for v in states_for(rng, p, want): ls.append('%d range %s 2 %x %x' % (len(ls), ' '.join('%x' % x for x in p), v[0], v[1]))
    for k in range(40):            # parameters and seed chosen so that the initialisation arrives at the all-zero state
        s0, s1 = rng.choice([0, 1 << 63]), 0; q = [s0, s1]
        for i in range(7, 0, -1):
            w = q[(i + 1) % 2]; q[i % 2] ^= (i + 6364136223846793005 * (w ^ (w >> 62))) & M64
        m1, m2 = (PARAMS[0][0], PARAMS[0][1]) if k % 2 else (rng.getrandbits(32), rng.getrandbits(32))
        ls.append('%d seed %x %x %x 1 %x' % (len(ls), m1, m2, q[1] ^ m2, q[0] ^ (m1 << 32)))
    bad = lines_conf(R, 'tiny', [os.path.join(HERE, 'drv_tiny.cc')] + src('tinymt64.cc'), ls, 'generator (op, mat1 mat2 tmat, count, values), hexadecimal', san)
    return len(ls), len(ls), bad, ls[5:8]
def rng_class(R, san=False):
    """the simulator's generator classes against the reference recurrence"""
    rng = R.rng('rngclass'); ls = []
    for k in range(400 * R.depth):
        s = rng.choice([0, 1, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1, rng.getrandbits(64), rng.getrandbits(31), 1 << rng.randrange(64)])
        ls.append('%d %s %d %.17g' % (k, rng.choice(['u', 'e', 'x']), s, rng.choice([1, .5, 1 / 3, 2.25, rng.random(), 1e-4, 40])))
    d = os.path.join(R.tmp, 'rngsrc'); os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(HERE, 'drv_rng.cc'), d); shutil.copy(os.path.join(REPO, 'src', 'crossprob_mc.cc'), d)
    bad = lines_conf(R, 'rng', [os.path.join(d, 'drv_rng.cc')] + src('tinymt64.cc', 'string_utils.cc', 'read_boundaries_file.cc', 'common.cc'), ls, 'generator object (u uniform, e exponential, x ExponentialRNG; seed, mean)', san)
    return len(ls), len(ls), bad, ls[5:8]
M64 = 2 ** 64 - 1
def inv_shl(x, s):
    r = x
    for _ in range(64 // s + 1): r = x ^ (r << s & M64)
    return r
def inv_shr(x, s):
    r = x
    for _ in range(64 // s + 1): r = x ^ (r >> s)
    return r
def states_for(rng, p, want):
    """states whose next output is `want`: choose s0' freely, solve the tempering, undo the step"""
    m1, m2, t = p; out = []
    for _ in range(60):
        s0 = rng.getrandbits(64)
        for low in (0, 1):
            y = want ^ (t if low else 0)
            if (y & 1) != low: continue
            s1 = ((y ^ (s0 >> 8)) - s0) & M64
            for odd in (0, 1):
                x = s1 ^ ((m2 << 32) & M64 if odd else 0)
                if (x & 1) != odd: continue
                b1 = s0 ^ (m1 if odd else 0)
                z = inv_shl(x, 11); z = inv_shl(z, 32); z = inv_shr(z, 32); z = inv_shl(z, 12)
                b0 = z ^ b1
                if b0 >> 63 == 0: out.append((b0, b1))
    return out[:6]
def agree(R):
    """algorithms against each other, mirror images, range and monotonicity (values from the real code only)"""
    rng = R.rng('agree'); cs = []; groups = []
    def add(al, b, B): cs.append((str(len(cs)), al, b, B)); return cs[-1][0]
    for _ in range(120 * R.depth):
        n = rng.choice(E.SMALL) if rng.random() < .85 else rng.choice(E.BIG[:20])
        b, B = E.pair(rng, n); ms = lambda v: [1.0 - x for x in reversed(v)]
        if n <= 100: ids_b = [add('mns-b', b, []), add('mns-B', [], ms(b))]; ids_B = [add('mns-B', [], B), add('mns-b', ms(B), [])]
        else: ids_b, ids_B = [], []
        ids_b += [add('new-b', b, []), add('two-direct', b, [1.0] * n), add('two-fft', b, [1.0] * n), add('new-B', [], ms(b)), add('two-direct', [0.0] * n, ms(b))]
        ids_B += [add('new-B', [], B), add('two-direct', [0.0] * n, B), add('two-fft', [0.0] * n, B), add('new-b', ms(B), [])]
        ids = [add('two-direct', b, B), add('two-fft', b, B), add('two-direct', ms(B), ms(b))]
        if n:
            i = rng.randrange(n); x = rng.random()
            b2 = [v if k < i else max(v, min(1, b[i] + .3 * x)) for k, v in enumerate(b)]; B2 = [v if k > i else min(v, max(0, B[i] - .3 * x)) for k, v in enumerate(B)]
            less = [(add('two-direct', b2, B), ids[0]), (add('two-direct', b, B2), ids[0]), (add('new-b', b2, []), ids_b[-5]), (add('new-B', [], B2), ids_B[-4]), (add('two-fft', b2, B2), ids[1])]
        else: less = []
        groups.append((ids_b, ids_B, ids, less))
    exe = R.build('ecdf', [os.path.join(HERE, 'drv_ecdf.cc')] + src(*LIBSRC))
    got = parallel(exe, [E.line(*c) for c in cs], 250, ENV)
    byid = {c[0]: c for c in cs}; bad = []
    def val(i):
        g = got.get(i)
        if g is None: return None
        if not g.startswith('ok'): bad.append(Failure(g, descr(*byid[i][1:]))); return None
        return float(g.split()[1])
    v = {c[0]: val(c[0]) for c in cs}
    for i, x in v.items():
        if x is not None and not -TOL <= x <= 1 + TOL: bad.append(Failure('%.17g is not in [0,1]' % x, descr(*byid[i][1:])))
    for gb, gB, g2, less in groups:
        for g in (gb, gB, g2):
            xs = [i for i in g if v[i] is not None]
            for i in xs[1:]:
                if not abs(v[i] - v[xs[0]]) <= 2 * TOL: bad.append(Failure('%.17g and %.17g differ' % (v[xs[0]], v[i]), descr(*byid[xs[0]][1:]) + '   and   ' + descr(*byid[i][1:])))
        for i, j in less:
            if v[i] is not None and v[j] is not None and not v[i] <= v[j] + 2 * TOL: bad.append(Failure('%.17g is larger than %.17g' % (v[i], v[j]), descr(*byid[i][1:]) + '   and   ' + descr(*byid[j][1:])))
    return len(cs), len(groups), bad, [descr(*c[1:])[:300] + ' -> ' + got.get(c[0], '?') for c in cs[40:43]]
