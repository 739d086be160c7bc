"""Contracts of the C++ standard library, libm, libc and FFTW functions the code uses.
These are the *trusted* (assumed) contracts of the external dependencies."""
import z3
from .term import *
from .values import *
from .cxx import T, PRIM
from . import exec as X

SLEN, SCHAR = X.SLEN, X.SCHAR
F1 = lambda n: z3.Function(n, R, R)
EXP, LOG, LGAMMA, SQRT, TGAMMA, LOG1P, EXPM1 = [F1(n) for n in ('fn_exp', 'fn_log', 'fn_lgamma', 'fn_sqrt', 'fn_tgamma', 'fn_log1p', 'fn_expm1')]
IPOW = z3.Function('ipow', R, I, R)
RPOW = z3.Function('rpow', R, R, R)
POW2 = z3.Function('pow2', I, R)
INF = z3.Const('INF', R)
STRTOD = z3.Function('strtod_val', I, R); STRTOD_END = z3.Function('strtod_end', I, I); STRTOD_ERR = z3.Function('strtod_err', I, I); STRTOD_NAN = z3.Function('strtod_nan', I, B); NUMSTART = z3.Function('num_start', I, I)
STRTOL = z3.Function('strtol_val', I, I); STRTOL_END = z3.Function('strtol_end', I, I); STRTOL_ERR = z3.Function('strtol_err', I, I)
SUFFIX = z3.Function('suffix', I, I, I)
SUBSTR = z3.Function('substr', I, I, I, I)
CONCAT = z3.Function('concat', I, I, I)
ISOPEN = z3.Function('file_isopen', I, B); NLINES = z3.Function('file_nlines', I, I); FLINE = z3.Function('file_line', I, I, I)
FLASTNL = z3.Function('file_lastnl', I, B); FREADERR = z3.Function('file_readerr', I, I, B)
PLAN_N = z3.Function('plan_n', I, I); PLAN_KIND = z3.Function('plan_kind', I, I); PLAN_IN = z3.Function('plan_in', I, I); PLAN_OUT = z3.Function('plan_out', I, I)
AR = z3.ArraySort(I, R)
DFTRE = z3.Function('dft_re', AR, I, I, R); DFTIM = z3.Function('dft_im', AR, I, I, R); IDFT = z3.Function('idft_c2r', AR, AR, I, I, R)
ERANGE, EINVAL = 34, 22

TRUSTED = {
 'libm': 'exp, log, lgamma, sqrt, pow, frexp, ldexp, ... are their mathematical functions on the reals',
 'libstdc++': 'vector, string, streams, algorithms, exceptions behave as the C++ standard specifies',
 'FFTW': 'r2c / c2r transforms compute the (unnormalised) discrete Fourier transform; c2r and DESTROY_INPUT may clobber the input',
 'alloc': 'memory allocation never fails',
}

def is_builtin(f):
    return f.is_stub and (f.body is None or f.qual in ('std::sort', 'std::stable_sort'))

def math_log(s, x):
    s.oblige('log-domain', x > 0, X.short(x))
    return LOG(x)

def call(s, f, this, av, n, this_ty):
    q = f.qual
    name = f.name
    cls = f.cls
    s.trusted.add(q)
    if cls:
        base = cls.split('<')[0]
        h = METHODS.get((base, name))
        if h is None and base in ('ifstream', 'istream', 'ostream', 'stringstream', 'ostringstream', 'ios_base'):
            h = METHODS.get(('stream', name))
        if h is not None: return h(s, f, this, av, n)
        if name == 'operator=' and f.body is None:
            v = av[0]
            if isinstance(v, Ref): v = s.load(v)
            if isinstance(v, Seq): v = v.with_(bid=s.bid())
            s.store(this, v); return this
        c = s.P.classes.get(cls)
        if name == 'what': return cptr(s, s.fresh(I, 'what'))
        raise Unsupported('library method %s' % q)
    h = FUNCS.get(name)
    if h is not None: return h(s, f, av, n)
    raise Unsupported('library function %s' % q)

# ------------------------------------------------------------------ helpers
def ld(s, v):
    return s.load(v) if isinstance(v, Ref) else v
def fresh_str(s, tag='str'):
    v = s.fresh(I, tag); s.assume(SLEN(v) >= 0)
    return v
def cptr(s, sid):
    o = s.new_obj(sid, 'cstr')
    return s.seq_ptr(Ref([(TRUE, o, ())]))
def str_of_ptr(s, p):
    """content id of the C string p points to"""
    res = None
    for g, t in p.alts:
        if t is None:
            s.oblige('null-deref', lnot(g)); continue
        v = s.get_path(s.obj(t[0]), t[1])
        if not (isinstance(v, z3.ExprRef) and v.sort() == I): raise Unsupported('C string of %r' % (v,))
        res = v if res is None else ite(g, v, res)
    if res is None: raise X.Infeasible()
    if s.proves(p.off == 0): 
        s.assume(SLEN(res) >= 0)
        return res
    r = SUFFIX(res, p.off); s.assume(SLEN(r) >= 0)
    return r
def str_val(s, v):
    if isinstance(v, Ptr): return str_of_ptr(s, v)
    v = ld(s, v)
    if isinstance(v, Ptr): return str_of_ptr(s, v)
    s.assume(SLEN(v) >= 0)
    return v
def vec(s, this):
    v = s.load(this)
    if not isinstance(v, Seq): raise Unsupported('vector method on %r' % (v,))
    return v

# ------------------------------------------------------------------ constructors
def construct(s, t, args, ct):
    nm = t.name
    if nm == 'vector':
        ps = X.split_params(ct) if ct else []
        if not args: return s.default_value(t)
        if len(args) == 1:
            at = s.ty(args[0])
            if at.kind == 'ref': at = at.sub
            if at == t:
                v = s.rv(args[0])
                if not isinstance(v, Seq): raise Unsupported('vector copy')
                return v.with_(bid=s.bid())
            if at.kind == 'int':
                k = s.num(args[0]); 
                s.oblige('allocation-size', z3.And(k >= 0, k <= 2 ** 40), X.short(k))
                return Seq(k, lconst(s.zero_value(t.args[0])), t.args[0], s.bid(), 'vec')
            if at.name == 'initializer_list':
                e = args[0]
                while e.get('kind') != 'InitListExpr':
                    if len(e.get('inner', []) or []) != 1: raise Unsupported('initializer_list')
                    e = e['inner'][0]
                d = lconst(s.zero_value(t.args[0])); es = e.get('inner', []) or []
                for i, x in enumerate(es):
                    x = s.coerce(s.rv(x), t.args[0])
                    d = lstore(d, iv(i), (), x.with_(bid=None) if isinstance(x, Seq) else x)
                return Seq(iv(len(es)), d, t.args[0], s.bid(), 'vec')
        if len(args) == 2 and ps and (s.P.tp.parse(ps[0]).kind == 'int'):
            k = s.conv(s.num(args[0]), s.ty(args[0]), PRIM['unsigned long'])
            v = s.rv(args[1])
            v = s.coerce(v, t.args[0])
            s.oblige('allocation-size', z3.And(k >= 0, k <= 2 ** 40), X.short(k))
            return Seq(k, lconst(v), t.args[0], s.bid(), 'vec')
        if len(args) == 2:
            p, q = s.rv(args[0]), s.rv(args[1])
            if isinstance(p, Ptr) and isinstance(q, Ptr):
                cnt, src, _ = range_src(s, p, q, t.args[0])
                return Seq(cnt, splice(lconst(s.zero_value(t.args[0])), iv(0), iv(0), cnt, src, iv(0)), t.args[0], s.bid(), 'vec')
            if all(isinstance(x, Struct) and x.cname.startswith('__rev') for x in (p, q)):
                cnt, src, _ = range_src(s, q.f['p'], p.f['p'], t.args[0])
                return Seq(cnt, splice(lconst(s.zero_value(t.args[0])), iv(0), iv(0), cnt, lambda path, m: src(path, sub(sub(cnt, 1), m)), iv(0)), t.args[0], s.bid(), 'vec')
            raise Unsupported('vector(first, last) of %r' % (p,))
        return NotImplemented
    if nm == 'string':
        if not args: return s.lit_str('')
        if len(args) == 1:
            return str_val(s, s.ev(args[0]))
        for a in args: s.rv(a)
        return fresh_str(s)
    if nm == 'ifstream':
        f = Struct('ifstream', {'file': iv(-1), 'open': FALSE, 'mask': iv(0), 'eof': FALSE, 'fail': FALSE, 'bad': FALSE, 'line': iv(0)})
        if args: f = open_file(s, f, str_val(s, s.ev(args[0])))
        return f
    if nm in ('stringstream', 'ostringstream'):
        for a in args: s.ev(a)
        return Opaque('sstream')
    if nm == 'ostream_iterator':
        st = s.lv(args[0]); s.rv(args[1])
        return Struct('ostream_iterator', {'os': s.addr_of(st)})
    c = s.P.classes.get(repr(t))
    if c is not None and is_exc(s, t):
        for a in args: s.ev(a)
        return Opaque('exc:' + nm)
    return NotImplemented

def range_src(s, p, q, et):
    """the elements [p, q): their number, and a function (path, m) -> scalar"""
    a, b = seq_targets(s, p), seq_targets(s, q)
    if len(a) != 1 or len(b) != 1 or a[0][1][:2] != b[0][1][:2]: raise Unsupported('range over several objects')
    sq = s.get_path(s.obj(a[0][1][0]), a[0][1][1])
    if not isinstance(sq, Seq) or sq.et != et: raise Unsupported('range of %r into vector of %r' % (sq, et))
    for x in (p, q): s.oblige('dangling-pointer', FALSE) if a[0][1][3] is not None and sq.bid != a[0][1][3] else None
    s.oblige('in-bounds', z3.And(p.off >= 0, p.off <= q.off, q.off <= sq.len), 'range of elements')
    fs = {}
    def note(d, path): fs[path] = d; return d
    map_data(sq.data, note)
    return sub(q.off, p.off), (lambda path, m: fs[path].read(add(p.off, m))), sq
def splice(data, n, at, cnt, src, old_cnt):
    """data[0..n) with [at, at+old_cnt) replaced by cnt elements src"""
    end = sub(add(n, cnt), old_cnt)
    def mk(d, path):
        def rd(i):
            tail = d.read(sub(add(i, old_cnt), cnt))
            if src is None: return tail
            new = src(path, sub(i, at))
            return new if z3.is_true(z3.simplify(add(at, cnt) >= end)) else ite(zint(i) < add(at, cnt), new, tail)
        return FRange(d, at, end, rd)
    return map_data(data, mk)
def is_exc(s, t):
    if t.name == 'exception': return True
    c = s.P.classes.get(repr(t))
    if c is None or not c.is_stub and not any(True for _ in c.bases): return False
    if c.fields: return False
    return any(is_exc(s, b) for b in c.bases)

def open_file(s, f, sid):
    ok = ISOPEN(sid)
    s.assume(NLINES(sid) >= 0)
    return Struct('ifstream', {'file': sid, 'open': ok, 'mask': f.f['mask'], 'eof': FALSE, 'fail': lnot(ok), 'bad': FALSE, 'line': iv(0)})

# ------------------------------------------------------------------ methods
METHODS = {}
def M(*keys):
    def d(fn):
        for k in keys: METHODS[k] = fn
        return fn
    return d

@M(('vector', 'size'), ('vector', 'capacity'))
def _(s, f, this, av, n): return vec(s, this).len
@M(('vector', 'empty'))
def _(s, f, this, av, n): return vec(s, this).len == 0
@M(('vector', 'operator[]'))
def _(s, f, this, av, n):
    i = av[0] if not isinstance(av[0], Ref) else s.load(av[0])
    vec(s, this)
    return this.ext(i)
@M(('vector', 'at'))
def _(s, f, this, av, n):
    i = ld(s, av[0]); v = vec(s, this)
    if not s.branch(z3.And(i >= 0, i < v.len)): raise X.ThrowX('out_of_range', Opaque('exc:out_of_range'))
    return this.ext(i)
@M(('vector', 'front'))
def _(s, f, this, av, n):
    s.oblige('in-bounds', vec(s, this).len > 0, 'front() of empty vector')
    return this.ext(iv(0))
@M(('vector', 'back'))
def _(s, f, this, av, n):
    v = vec(s, this)
    s.oblige('in-bounds', v.len > 0, 'back() of empty vector')
    return this.ext(sub(v.len, 1))
@M(('vector', 'data'), ('vector', 'begin'), ('vector', 'cbegin'))
def _(s, f, this, av, n): vec(s, this); return s.seq_ptr(this)
@M(('vector', 'end'), ('vector', 'cend'))
def _(s, f, this, av, n): return s.seq_ptr(this, vec(s, this).len)
@M(('vector', 'push_back'))
def _(s, f, this, av, n):
    x = ld(s, av[0])
    if x is UNDEF: s.scalar(x, 'push_back argument')
    v = vec(s, this)
    if isinstance(x, Seq): x = x.with_(bid=None)
    s.store(this, v.with_(len=add(v.len, 1), data=lstore(v.data, v.len, (), x), bid=s.bid()))
@M(('vector', 'pop_back'))
def _(s, f, this, av, n):
    v = vec(s, this)
    s.oblige('in-bounds', v.len > 0, 'pop_back() of empty vector')
    s.store(this, v.with_(len=sub(v.len, 1)))
@M(('vector', 'clear'))
def _(s, f, this, av, n):
    v = vec(s, this); s.store(this, v.with_(len=iv(0), bid=s.bid()))
@M(('vector', 'reserve'))
def _(s, f, this, av, n):
    k = ld(s, av[0]); s.oblige('allocation-size', z3.And(k >= 0, k <= 2 ** 40), X.short(k))
    v = vec(s, this); s.store(this, v.with_(bid=s.bid()))
@M(('vector', 'resize'), ('vector', 'assign'))
def _(s, f, this, av, n):
    v = vec(s, this)
    if f.name == 'assign' and isinstance(av[0], Ptr):
        cnt, src, _ = range_src(s, av[0], av[1], v.et)
        s.store(this, v.with_(len=cnt, data=splice(v.data, iv(0), iv(0), cnt, src, iv(0)), bid=s.bid())); return
    k = ld(s, av[0])
    s.oblige('allocation-size', z3.And(k >= 0, k <= 2 ** 40), X.short(k))
    z = lconst(ld(s, av[1]) if len(av) > 1 else s.zero_value(v.et))
    if f.name == 'assign': s.store(this, v.with_(len=k, data=z, bid=s.bid())); return
    if s.proves(k <= v.len): d = v.data
    else: d = lmap(lambda a, b: FRange(b, iv(0), v.len, a.read), v.data, z)
    s.store(this, v.with_(len=k, data=d, bid=s.bid()))
def vec_pos(s, this, v, p):
    p = ld(s, p) if isinstance(p, Ref) else p
    here = s.seq_ptr(this)
    a, b = seq_targets(s, p), seq_targets(s, here)
    if len(a) != 1 or len(b) != 1 or a[0][1] != b[0][1]: raise Unsupported('an iterator of another vector')
    return p.off
@M(('vector', 'insert'))
def _(s, f, this, av, n):
    v = vec(s, this); at = vec_pos(s, this, v, av[0])
    s.oblige('in-bounds', z3.And(at >= 0, at <= v.len), 'insert position')
    if len(av) == 3 and isinstance(av[1], Ptr): cnt, src, _ = range_src(s, av[1], av[2], v.et)
    else:
        cnt = ld(s, av[1]) if len(av) == 3 else iv(1)
        x = s.coerce(ld(s, av[-1]), v.et)
        if x is UNDEF or isinstance(x, Seq): raise Unsupported('insert')
        s.oblige('allocation-size', z3.And(cnt >= 0, cnt <= 2 ** 40), X.short(cnt))
        def src(path, m):
            y = x
            for k in path: y = y.f[k]
            return y
    if s.proves(at == v.len): at = v.len
    s.store(this, v.with_(len=add(v.len, cnt), data=splice(v.data, v.len, at, cnt, src, iv(0)), bid=s.bid()))
    return s.seq_ptr(this, at)
@M(('vector', 'erase'))
def _(s, f, this, av, n):
    v = vec(s, this); at = vec_pos(s, this, v, av[0])
    k = sub(vec_pos(s, this, v, av[1]), at) if len(av) > 1 else iv(1)
    s.oblige('in-bounds', z3.And(at >= 0, k >= 0, at + k <= v.len), 'erase')
    if s.proves(at + k == v.len): s.store(this, v.with_(len=z3.simplify(at)))
    else: s.store(this, v.with_(len=sub(v.len, k), data=splice(v.data, v.len, at, iv(0), None, k), bid=s.bid()))
    return s.seq_ptr(this, at)
@M(('vector', 'swap'))
def _(s, f, this, av, n):
    a, b = s.load(this), s.load(av[0])
    s.store(this, b); s.store(av[0], a)
@M(('vector', 'operator='))
def _(s, f, this, av, n):
    v = s.load(av[0])
    s.store(this, v.with_(bid=s.bid())); return this
@M(('vector', '~vector'), ('string', '~string'), ('ifstream', '~ifstream'), ('stringstream', '~stringstream'), ('ostringstream', '~ostringstream'))
def _(s, f, this, av, n): return None

# strings
@M(('string', 'size'), ('string', 'length'))
def _(s, f, this, av, n): v = str_val(s, this); s.assume(SLEN(v) <= 2 ** 30); return SLEN(v)
@M(('string', 'empty'))
def _(s, f, this, av, n): return SLEN(str_val(s, this)) == 0
@M(('string', 'c_str'), ('string', 'data'), ('string', 'begin'))
def _(s, f, this, av, n): str_val(s, this); return s.seq_ptr(this)
@M(('string', 'end'))
def _(s, f, this, av, n): return s.seq_ptr(this, SLEN(str_val(s, this)))
@M(('string', 'operator[]'))
def _(s, f, this, av, n): str_val(s, this); return this.ext(ld(s, av[0]))
@M(('string', 'at'))
def _(s, f, this, av, n):
    v = str_val(s, this); i = ld(s, av[0])
    if not s.branch(z3.And(i >= 0, i < SLEN(v))): raise X.ThrowX('out_of_range', Opaque('exc:out_of_range'))
    return this.ext(i)
@M(('string', 'back'))
def _(s, f, this, av, n):
    v = str_val(s, this); s.oblige('in-bounds', SLEN(v) > 0, 'back() of empty string')
    return this.ext(SLEN(v) - 1)
@M(('string', 'front'))
def _(s, f, this, av, n):
    v = str_val(s, this); s.oblige('in-bounds', SLEN(v) > 0, 'front() of empty string')
    return this.ext(iv(0))
@M(('string', 'substr'))
def _(s, f, this, av, n):
    v = str_val(s, this); pos = ld(s, av[0])
    if not s.branch(z3.And(pos >= 0, pos <= SLEN(v))): raise X.ThrowX('out_of_range', Opaque('exc:out_of_range'))
    rest = SLEN(v) - pos
    if len(av) > 1:
        k = ld(s, av[1])
        cnt = k if s.proves(k <= rest) else z3.If(k <= rest, k, rest)
    else: cnt = rest
    cnt = z3.simplify(cnt)
    r = SUBSTR(v, pos, cnt)
    s.assume(SLEN(r) == cnt)
    return r
@M(('string', 'operator='))
def _(s, f, this, av, n):
    s.store(this, str_val(s, av[0])); return this
@M(('string', 'operator+='), )
def _(s, f, this, av, n):
    a = str_val(s, this)
    if f.params and s.P.ty(f.params[0]).kind == 'int':
        r = fresh_str(s); s.assume(SLEN(r) == SLEN(a) + 1)
    else:
        b = str_val(s, av[0]); r = CONCAT(a, b); s.assume(SLEN(r) == SLEN(a) + SLEN(b))
    s.store(this, r); return this
@M(('string', 'push_back'))
def _(s, f, this, av, n):
    a = str_val(s, this); r = fresh_str(s); s.assume(SLEN(r) == SLEN(a) + 1); s.store(this, r)
@M(('string', 'pop_back'))
def _(s, f, this, av, n):
    a = str_val(s, this); s.oblige('in-bounds', SLEN(a) > 0, 'pop_back() of empty string')
    r = SUBSTR(a, iv(0), SLEN(a) - 1); s.assume(SLEN(r) == SLEN(a) - 1); s.store(this, r)
@M(('string', 'clear'))
def _(s, f, this, av, n): s.store(this, s.lit_str(''))
@M(('string', 'find'))
def _(s, f, this, av, n):
    v = str_val(s, this); c = ld(s, av[0]); p0 = ld(s, av[1]) if len(av) > 1 else iv(0)
    r = s.fresh(I, 'find'); npos = 2 ** 64 - 1
    t = z3.Int('#q')
    s.assume(z3.Or(r == npos, z3.And(r >= p0, r < SLEN(v), SCHAR(v, r) == c)))
    s.assume(z3.ForAll([t], z3.Implies(z3.And(t >= p0, t < z3.If(r == npos, SLEN(v), r)), SCHAR(v, t) != c), patterns=[SCHAR(v, t)]))
    return r
@M(('string', 'compare'))
def _(s, f, this, av, n):
    a = str_val(s, this)
    if len(av) == 3:
        pos, k = ld(s, av[0]), ld(s, av[1])
        if not s.branch(z3.And(pos >= 0, pos <= SLEN(a))): raise X.ThrowX('out_of_range', Opaque('exc:out_of_range'))
        rest = SLEN(a) - pos; cnt = z3.simplify(z3.If(k <= rest, k, rest)); r = SUBSTR(a, pos, cnt); j = z3.Int('#j')
        s.assume(SLEN(r) == cnt)
        for j in range(41): s.assume(imp(j < cnt, SCHAR(r, iv(j)) == SCHAR(a, z3.simplify(pos + j))))
        a = r
    b = str_val(s, av[-1])
    r = s.fresh(I, 'cmp'); s.assume((r == 0) == str_eq(s, a, b)); s.assume(z3.And(r >= -2 ** 31, r < 2 ** 31)); return r

def str_eq(s, a, b):
    for x, y in ((a, b), (b, a)):
        for t, c in list(s.lits.items()):
            if c.eq(y):
                k = ('litcmp', x.get_id(), t); 
                s.keep.append(x)
                if len(t) <= 40:
                    s.lit_str(t)
                    s.assume((x == c) == z3.And(*([SLEN(x) == len(t)] + [SCHAR(x, iv(i)) == (ch if ch < 128 else ch - 256) for i, ch in enumerate(t)])))
    return a == b

# streams
@M(('stream', 'operator<<'))
def _(s, f, this, av, n):
    v = av[0]
    t = s.P.ty(f.params[0])
    emit(s, this, v, t); return this
def is_cout(s, ref):
    v = s.load(ref) if isinstance(ref, Ref) else ref
    return v.tag if isinstance(v, Opaque) else None
def emit(s, stream, v, t):
    k = is_cout(s, stream)
    if k in ('cout', 'cerr', 'clog'):
        if isinstance(v, Fn):
            s.st.out.append((k, 'manip', v.func.name if not isinstance(v.func, dict) else '?')); return
        v = ld(s, v)
        if isinstance(v, Ptr):
            try: v = str_of_ptr(s, v)
            except Unsupported: pass
            s.st.out.append((k, 'text', v)); return
        if t is not None and t.kind == 'cls' and t.name == 'string' or t is not None and t.kind == 'ref' and t.sub.name == 'string':
            s.st.out.append((k, 'text', v)); return
        if t is not None and t.name == 'char': s.st.out.append((k, 'char', v)); return
        s.st.out.append((k, 'num', v))
    else:
        if isinstance(v, Ptr):
            if any(x is None for _, x in v.alts): s.oblige('null-deref', lnot(lor(*[g for g, x in v.alts if x is None])))
@M(('stream', 'precision'))
def _(s, f, this, av, n):
    k = is_cout(s, this)
    if av and k == 'cout': s.st.out.append((k, 'precision', av[0]))
    return s.fresh(I, 'prec')
@M(('stream', 'flush'))
def _(s, f, this, av, n): return this
@M(('stream', 'str'))
def _(s, f, this, av, n): return fresh_str(s, 'sstr')
@M(('stream', 'is_open'))
def _(s, f, this, av, n): return s.load(this).f['open']
@M(('stream', 'open'))
def _(s, f, this, av, n):
    s.store(this, open_file(s, s.load(this), str_val(s, av[0])))
@M(('stream', 'close'))
def _(s, f, this, av, n): s.store(this.ext('open'), FALSE)
@M(('stream', 'good'))
def _(s, f, this, av, n): g = s.load(this).f; return z3.And(lnot(g['eof']), lnot(g['fail']), lnot(g['bad']))
@M(('stream', 'fail'), ('stream', 'operator!'))
def _(s, f, this, av, n): g = s.load(this).f; return lor(g['fail'], g['bad'])
@M(('stream', 'operator bool'))
def _(s, f, this, av, n): g = s.load(this).f; return lnot(lor(g['fail'], g['bad']))
@M(('stream', 'bad'))
def _(s, f, this, av, n): return s.load(this).f['bad']
@M(('stream', 'eof'))
def _(s, f, this, av, n): return s.load(this).f['eof']
@M(('stream', 'clear'))
def _(s, f, this, av, n):
    g = s.load(this); s.store(this, Struct(g.cname, dict(g.f, eof=FALSE, fail=FALSE, bad=FALSE)))
@M(('stream', 'exceptions'))
def _(s, f, this, av, n):
    g = s.load(this)
    if not av: return g.f['mask']
    m = av[0]
    if ival(m) is None: raise Unsupported('symbolic exception mask')
    s.store(this.ext('mask'), m)
    stream_check(s, this)
def stream_check(s, this):
    g = s.load(this).f
    m = ival(g['mask'])
    if m is None: raise Unsupported('symbolic exception mask')
    c = lor(*[x for bit, x in ((1, g['bad']), (2, g['eof']), (4, g['fail'])) if m & bit])
    if s.branch(c): raise X.ThrowX('failure', Opaque('exc:failure'))
@M(('exception', 'what'))
def _(s, f, this, av, n): return cptr(s, fresh_str(s, 'what'))
@M(('ostream_iterator', 'operator*'), ('ostream_iterator', 'operator++'))
def _(s, f, this, av, n): return this
@M(('ostream_iterator', 'operator='))
def _(s, f, this, av, n):
    p = s.load(this).f['os']
    emit(s, s.ptr_ref(p), av[0], None); return this

# ------------------------------------------------------------------ free functions
FUNCS = {}
def Fd(*keys):
    def d(fn):
        for k in keys: FUNCS[k] = fn
        return fn
    return d

@Fd('operator<<')
def _(s, f, av, n):
    emit(s, av[0], av[1], s.P.ty(f.params[1])); return av[0]
@Fd('getline')
def _(s, f, av, n):
    if len(av) > 2: raise Unsupported('getline with delimiter')
    st, out = av
    g = s.load(st).f
    if 'file' not in g: raise Unsupported('getline on this stream')
    if s.branch(lor(g['eof'], g['fail'], g['bad'])):
        s.store(st.ext('fail'), TRUE)
        stream_check(s, st); return st
    k = g['line']; fl = g['file']
    if s.branch(FREADERR(fl, k)):
        s.store(out, fresh_str(s, 'partial')); s.store(st.ext('bad'), TRUE)
        stream_check(s, st); return st
    if s.branch(k < NLINES(fl)):
        v = FLINE(fl, k); s.assume(SLEN(v) >= 0); s.assume(SLEN(v) <= 2 ** 30)
        s.store(out, v); s.store(st.ext('line'), add(k, 1))
        s.store(st.ext('eof'), z3.And(k + 1 == NLINES(fl), lnot(FLASTNL(fl))))
    else:
        s.store(out, s.lit_str('')); s.store(st.ext('eof'), TRUE); s.store(st.ext('fail'), TRUE)
    stream_check(s, st)
    return st
@Fd('operator==')
def _(s, f, av, n): return str_eq(s, str_val(s, av[0]), str_val(s, av[1]))
@Fd('operator!=')
def _(s, f, av, n): return lnot(str_eq(s, str_val(s, av[0]), str_val(s, av[1])))
@Fd('operator+')
def _(s, f, av, n):
    def sv(v, p):
        if s.P.ty(p).kind == 'int':
            return fresh_str(s, 'chr')
        return str_val(s, v)
    a, b = sv(av[0], f.params[0]), sv(av[1], f.params[1])
    r = CONCAT(a, b); s.assume(SLEN(r) == SLEN(a) + SLEN(b)); s.assume(SLEN(r) >= 0)
    return r
@Fd('to_string')
def _(s, f, av, n): return fresh_str(s, 'tostr')
@Fd('__vassert')
def _(s, f, av, n):
    s.oblige('assert', s.to_bool(av[0]))
@Fd('__vinf')
def _(s, f, av, n):
    return INF
@Fd('exp', 'expl')
def _(s, f, av, n):
    r = EXP(av[0]); s.assume(r > 0); return r
@Fd('log', 'logl')
def _(s, f, av, n): return math_log(s, av[0])
@Fd('lgamma', 'lgammal')
def _(s, f, av, n): return LGAMMA(av[0])
@Fd('tgamma', 'tgammal')
def _(s, f, av, n): return TGAMMA(av[0])
@Fd('log1p')
def _(s, f, av, n): return math_log(s, 1 + av[0])
@Fd('expm1')
def _(s, f, av, n): return EXP(av[0]) - 1
@Fd('sqrt', 'sqrtl')
def _(s, f, av, n):
    x = av[0]
    s.oblige('sqrt-domain', x >= 0)
    r = SQRT(x)
    s.assume(r >= 0); s.assume(imp(x >= 1, z3.And(r >= 1, r <= x))); s.assume(imp(x == 0, r == 0)); s.assume(imp(x > 0, r > 0))
    return r
@Fd('pow', 'powl')
def _(s, f, av, n):
    x, y = av
    if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_TO_REAL: k = y.arg(0)
    elif z3.is_rational_value(y) and y.denominator_as_long() == 1: k = iv(y.numerator_as_long())
    else: return RPOW(x, y)
    if s.proves(k >= 0): return IPOW(x, k)
    return RPOW(x, y)
@Fd('exp2', 'exp2l')
def _(s, f, av, n): return RPOW(rvl(2), av[0])
@Fd('ldexp', 'ldexpl', 'scalbn', 'scalbnl')
def _(s, f, av, n):
    p = POW2(av[1]); s.assume(p > 0)
    return mul(av[0], p)
@Fd('frexp', 'frexpl')
def _(s, f, av, n):
    x, p = av
    e = s.fresh(I, 'frexp_e')
    lo, hi = (-16445, 16384) if s.P.ty(f.params[0]).name == 'long double' else (-1074, 1024)
    s.assume(z3.And(e >= lo, e <= hi)); s.assume(imp(x == 0, e == 0))
    s.store(s.ptr_ref(p), e)
    r = s.fresh(R, 'frexp_m'); s.assume(x == r * POW2(e)); return r
@Fd('ilogb', 'ilogbl')
def _(s, f, av, n):
    e = s.fresh(I, 'ilogb'); s.assume(z3.And(e >= -2 ** 31, e < 2 ** 31)); return e
@Fd('fabs', 'fabsl')
def _(s, f, av, n): return z3.If(av[0] >= 0, av[0], -av[0])
@Fd('fmin')
def _(s, f, av, n): return z3.If(av[0] <= av[1], av[0], av[1])
@Fd('fmax')
def _(s, f, av, n): return z3.If(av[0] >= av[1], av[0], av[1])
@Fd('floor')
def _(s, f, av, n): return z3.ToReal(z3.ToInt(av[0]))
@Fd('ceil')
def _(s, f, av, n): return -z3.ToReal(z3.ToInt(-av[0]))
@Fd('fma')
def _(s, f, av, n): return add(mul(av[0], av[1]), av[2])
@Fd('isspace', 'isdigit')
def _(s, f, av, n):
    c = av[0]
    if f.name == 'isdigit': r = z3.And(c >= 48, c <= 57)
    else: r = z3.Or(c == 32, z3.And(c >= 9, c <= 13))
    return z3.If(r, iv(1), iv(0))

# memory
@Fd('malloc', '_mm_malloc', 'fftw_malloc', 'calloc')
def _(s, f, av, n):
    sz = av[0]
    z = None
    if f.name == 'calloc': sz = mul(av[0], av[1]); z = True
    s.oblige('allocation-size', z3.And(sz >= 0, sz <= 2 ** 40), X.short(sz))
    b = s.bid()
    o = s.new_obj(Opaque(('raw', sz, z)), 'heap', heap='heap')
    return Ptr([(TRUE, (o, (), True, b))], 0)
@Fd('fftw_alloc_real', 'fftw_alloc_complex')
def _(s, f, av, n):
    sz = av[0]
    s.oblige('allocation-size', z3.And(sz >= 0, sz <= 2 ** 40), X.short(sz))
    et = PRIM['double'] if f.name == 'fftw_alloc_real' else T('cls', 'complex', args=[PRIM['double']])
    o = s.new_obj(Seq(sz, s.fresh_lift(et, 'uninit'), et, s.bid(), 'heap'), 'heap', heap='heap')
    return s.seq_ptr(Ref([(TRUE, o, ())]))
@Fd('free', '_mm_free', 'fftw_free')
def _(s, f, av, n): s.free(av[0])
def elem_count(s, p, nbytes, what):
    t = [x for g, x in p.alts if x is not None]
    if not t: raise X.Infeasible()
    sq = s.get_path(s.obj(t[0][0]), t[0][1])
    if not isinstance(sq, Seq): raise Unsupported('%s on %r' % (what, sq))
    es = s.sizeof(sq.et)
    c = X.exact_div(nbytes, es)
    if c is None:
        from .loops import unwrap
        nb = z3.simplify(unwrap(nbytes))       # conversions that may wrap: shown not to
        c = X.exact_div(nb, es)
        if c is not None: s.oblige('in-bounds', nbytes == nb, '%s: size' % what)
    if c is None: raise Unsupported('%s of %s bytes' % (what, nbytes))
    return c, sq
def seq_targets(s, p):
    nulls = [g for g, t in p.alts if t is None]
    if nulls: s.oblige('null-deref', lnot(lor(*nulls)))
    return [(g, t) for g, t in p.alts if t is not None]
def write_range(s, p, cnt, fn):
    """p[0..cnt) := fn(m) (value tree as function of m relative to p)"""
    for g, t in seq_targets(s, p):
        r = Ref([(TRUE, t[0], t[1])])
        sq = s.load(r)
        if t[3] is not None and sq.bid != t[3]: s.oblige('dangling-pointer', FALSE); raise X.Infeasible()
        s.oblige('in-bounds', imp(land(g, cnt > 0), z3.And(p.off >= 0, p.off + cnt <= sq.len)), 'range write')
        if s.st.heap.get(t[0]) == 'const': s.oblige('write-to-const', FALSE)
        def mk(old, path):
            def rd(i):
                v = fn(sub(i, p.off))
                for q in path: v = v.f[q]
                return v
            new = FRange(old, p.off, p.off + cnt, rd)
            return new if z3.is_true(g) else FIte(g, new, old)
        s.store(r, sq.with_(data=map_data(sq.data, mk)))
def map_data(d, mk, path=()):
    if isinstance(d, FArr): return mk(d, path)
    if isinstance(d, LStruct): return LStruct(d.cname, {k: map_data(x, mk, path + (k,)) for k, x in d.f.items()})
    raise Unsupported('map_data')
def read_range(s, p, cnt, what='range read'):
    """-> function m -> value tree; bounds checked"""
    ts = seq_targets(s, p)
    data = []
    for g, t in ts:
        sq = s.get_path(s.obj(t[0]), t[1])
        if t[3] is not None and sq.bid != t[3]: s.oblige('dangling-pointer', FALSE); raise X.Infeasible()
        s.oblige('in-bounds', imp(land(g, cnt > 0), z3.And(p.off >= 0, p.off + cnt <= sq.len)), what)
        data.append((g, sq.data))
    off = p.off
    def rd(m):
        v = None
        for g, d in reversed(data):
            x = unlift(d, add(off, m)); v = x if v is None else vite(g, x, v)
        return v
    return rd
@Fd('memcpy', 'memmove')
def _(s, f, av, n):
    d, p, nb = av
    cnt, sq = elem_count(s, d, nb, f.name)
    if f.name == 'memcpy':
        for g, t in d.alts:
            for h, u in p.alts:
                if t is not None and u is not None and t[0] == u[0] and t[1] == u[1]:
                    s.oblige('memcpy-overlap', imp(land(g, h), z3.Or(d.off + cnt <= p.off, p.off + cnt <= d.off, cnt <= 0)))
    rd = read_range(s, p, cnt)
    write_range(s, d, cnt, rd)
    return d
@Fd('memset')
def _(s, f, av, n):
    d, c, nb = av
    if ival(c) != 0: raise Unsupported('memset with a nonzero byte')
    cnt, sq = elem_count(s, d, nb, 'memset')
    z = s.zero_value(sq.et)
    write_range(s, d, cnt, lambda m: z)
    return d

# libc
@Fd('__verrno')
def _(s, f, av, n):
    if 'errno' not in s.st.ghost:
        s.st.ghost['errno'] = s.new_obj(s.fresh(I, 'errno'), 'errno')
    return s.addr_of(Ref([(TRUE, s.st.ghost['errno'], ())]))
def strto_facts(s, x):
    pass
@Fd('strtod')
def _(s, f, av, n):
    x = str_of_ptr(s, av[0])
    v, e, er = strtod_facts(s, x)
    strto_end(s, av[0], av[1], e, er)
    return v
def strtod_facts(s, x):
    v, e, er = STRTOD(x), STRTOD_END(x), STRTOD_ERR(x)
    s.assume(z3.And(e >= 0, e <= SLEN(x))); s.assume(z3.Or(er == 0, er == ERANGE)); s.assume(imp(e == 0, z3.And(v == 0, er == 0)))
    s.assume(z3.And(-INF <= v, v <= INF))
    # NaN is spelled with an initial letter n after white space and at most one sign, and nothing else is
    k = NUMSTART(x); j = z3.Int('#j')
    s.assume(imp(e > 0, z3.And(0 <= k, k < e, z3.Not(z3.Or(*[SCHAR(x, k) == c for c in WS_SIGN])), STRTOD_NAN(x) == z3.Or(SCHAR(x, k) == 110, SCHAR(x, k) == 78))))
    s.assume(z3.ForAll([j], z3.Implies(z3.And(e > 0, 0 <= j, j < k), z3.Or(*[SCHAR(x, j) == c for c in WS_SIGN])), patterns=[SCHAR(x, j)]))
    return v, e, er
WS_SIGN = b' \t\n\v\f\r+-'
@Fd('isnan', 'isinf')
def _(s, f, av, n): return FALSE        # compiled with -ffast-math
@Fd('strspn', 'strcspn')
def _(s, f, av, n):
    x = str_of_ptr(s, av[0]); y = str_of_ptr(s, av[1])
    t = [b for b, c in s.lits.items() if c.eq(y)]
    if not t: raise Unsupported('strspn with a computed set')
    isin = lambda i: z3.Or(*[SCHAR(x, i) == (c if c < 128 else c - 256) for c in t[0]]) if t[0] else FALSE
    if f.name == 'strspn': ok = lambda i: z3.And(SCHAR(x, i) != 0, isin(i)); 
    else: ok = lambda i: z3.And(SCHAR(x, i) != 0, z3.Not(isin(i)))
    k = s.fresh(I, 'span'); j = z3.Int('#j')
    s.assume(z3.And(0 <= k, k <= SLEN(x), z3.Or(k == SLEN(x), z3.Not(ok(k)))))
    s.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), ok(j)), patterns=[SCHAR(x, j)]))
    return k
@Fd('strtol', 'strtoll')
def _(s, f, av, n):
    x = str_of_ptr(s, av[0])
    if ival(av[2]) != 10: raise Unsupported('strtol base')
    v, e, er = strtol_facts(s, x)
    strto_end(s, av[0], av[1], e, er)
    return v
def strtol_facts(s, x):
    v, e, er = STRTOL(x), STRTOL_END(x), STRTOL_ERR(x)
    s.assume(z3.And(e >= 0, e <= SLEN(x))); s.assume(z3.And(v >= -2 ** 63, v < 2 ** 63))
    s.assume(z3.Or(er == 0, z3.And(er == ERANGE, z3.Or(v == -2 ** 63, v == 2 ** 63 - 1)), z3.And(er == EINVAL, e == 0, v == 0)))
    s.assume(imp(e == 0, z3.And(v == 0, er != ERANGE)))
    return v, e, er
def strto_end(s, p, endp, e, er):
    if isinstance(endp, Ptr) and not (len(endp.alts) == 1 and endp.alts[0][1] is None):
        s.store(s.ptr_ref(endp), Ptr(p.alts, add(p.off, e)))
    o = FUNCS['__verrno'](s, None, [], None)
    r = s.ptr_ref(o); old = s.load(r)
    s.store(r, z3.If(er != 0, er, old))
@Fd('atol', 'atoll')
def _(s, f, av, n):
    x = str_of_ptr(s, av[0]); v = STRTOL(x)
    s.oblige('int-conversion', STRTOL_ERR(x) != ERANGE, 'atol of a number out of range')
    s.assume(z3.And(v >= -2 ** 63, v < 2 ** 63, imp(STRTOL_END(x) == 0, v == 0))); return v
@Fd('atof')
def _(s, f, av, n):
    x = str_of_ptr(s, av[0]); v = STRTOD(x); s.assume(z3.And(-INF <= v, v <= INF, imp(STRTOD_END(x) == 0, v == 0))); return v
def sto(s, av, VAL, END, ERR, facts):
    x = str_val(s, av[0]); v, e, er = VAL(x), END(x), ERR(x)
    facts(x)
    if s.branch(e == 0): raise X.ThrowX('invalid_argument', Opaque('exc:invalid_argument'))
    if s.branch(er == ERANGE): raise X.ThrowX('out_of_range', Opaque('exc:out_of_range'))
    if len(av) > 1 and isinstance(av[1], Ptr) and not (len(av[1].alts) == 1 and av[1].alts[0][1] is None): s.store(s.ptr_ref(av[1]), e)
    return v
@Fd('stod')
def _(s, f, av, n): return sto(s, av, STRTOD, STRTOD_END, STRTOD_ERR, lambda x: strtod_facts(s, x))
@Fd('stol', 'stoll')
def _(s, f, av, n):
    if len(av) > 2 and ival(ld(s, av[2])) != 10: raise Unsupported('stol base')
    return sto(s, av, STRTOL, STRTOL_END, STRTOL_ERR, lambda x: strtol_facts(s, x))
@Fd('exit', '_exit')
def _(s, f, av, n): raise X.ThrowX('#exit', ld(s, av[0]))
@Fd('abort')
def _(s, f, av, n):
    s.oblige('assert', FALSE, 'abort()'); raise X.Infeasible()
@Fd('strerror')
def _(s, f, av, n): return cptr(s, fresh_str(s, 'strerror'))
@Fd('strlen')
def _(s, f, av, n): return SLEN(str_of_ptr(s, av[0]))
@Fd('strcmp')
def _(s, f, av, n):
    r = s.fresh(I, 'strcmp'); s.assume((r == 0) == str_eq(s, str_of_ptr(s, av[0]), str_of_ptr(s, av[1]))); s.assume(z3.And(r >= -2 ** 31, r < 2 ** 31)); return r
@Fd('time')
def _(s, f, av, n):
    t = s.fresh(I, 'time'); s.assume(z3.And(t >= 0, t < 2 ** 40)); return t
@Fd('clock')
def _(s, f, av, n):
    t = s.fresh(I, 'clock'); s.assume(z3.And(t >= 0, t < 2 ** 62)); return t

# sort: permutation + sortedness
@Fd('sort', 'stable_sort')
def _(s, f, av, n):
    a, b = av[0], av[1]
    if not s.same_base(a, b) or len(a.alts) != 1: raise Unsupported('sort range')
    g, t = a.alts[0]
    r = Ref([(TRUE, t[0], t[1])])
    sq = s.load(r)
    lo, hi = a.off, b.off
    s.oblige('in-bounds', z3.And(lo >= 0, lo <= hi, hi <= sq.len), 'sort range')
    pi = z3.Function(s.name('perm'), I, I); rho = z3.Function(s.name('perminv'), I, I)
    i, j = z3.Ints('#i #j')
    rng = lambda x: z3.And(x >= lo, x < hi)
    s.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(pi(i)), rho(pi(i)) == i)), patterns=[pi(i)]))
    s.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(rho(i)), pi(rho(i)) == i)), patterns=[rho(i)]))
    old = sq.data
    new = map_data(old, lambda d, path: FRange(d, lo, hi, lambda x: d.read(pi(x))))
    cmp = comparator(s, sq.et, av[2] if len(av) > 2 else None)
    def le(x, y):   # not (y < x)
        return lnot(cmp(unlift(new, y), unlift(new, x)))
    # strict weak order
    e1, e2, e3 = [s.fresh_value(sq.et, 'cmp') for _ in range(3)]
    s.oblige('comparator-irreflexive', lnot(cmp(e1, e1)))
    s.oblige('comparator-transitive', imp(land(cmp(e1, e2), cmp(e2, e3)), cmp(e1, e3)))
    s.oblige('comparator-incomparability', imp(land(lnot(cmp(e1, e2)), lnot(cmp(e2, e3))), lnot(cmp(e1, e3))))
    s.assume(z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), le(i, j)), patterns=[z3.MultiPattern(pi(i), pi(j))]))
    s.store(r, sq.with_(data=new))
    s.st.ghost[('sort', t[0], t[1])] = (pi, rho, lo, hi, old)
    s.st.ghost['lastsort'] = (pi, rho, lo, hi, old)
def comparator(s, et, fn):
    def run(func, vals, up=None):
        args = []
        for p, v in zip(func.params, vals):
            if s.P.ty(p).kind == 'ref': v = Ref([(TRUE, s.new_obj(v, 'cmparg'), ())])
            args.append(v)
        ok = s.try_guarded(TRUE, lambda: s.invoke(func, None, args, None, up=up))
        if ok is None: raise Unsupported('branching comparator')
        return s.to_bool(ok)
    def runm(func, oid, vals):
        args = [Ref([(TRUE, s.new_obj(v, 'cmparg'), ())]) if s.P.ty(p).kind == 'ref' else v for p, v in zip(func.params, vals)]
        ok = s.try_guarded(TRUE, lambda: s.invoke(func, Ref([(TRUE, oid, ())]), args, None))
        if ok is None: raise Unsupported('branching comparator')
        return s.to_bool(ok)
    if fn is not None:
        if isinstance(fn, Struct):
            std = {'less': lambda x, y: x < y, 'greater': lambda x, y: x > y}.get(fn.cname.split('<')[0])
            if std is not None and et.kind in ('real', 'int'): return std
            c = s.P.classes.get(fn.cname)
            ms = [m for m in c.methods if m.name == 'operator()'] if c is not None else []
            if len(ms) != 1: raise Unsupported('comparator')
            f = s.P.resolve(ms[0].tu, ms[0].node['id'])
            return lambda x, y: runm(f, s.new_obj(fn, 'cmpthis'), [x, y])
        if not isinstance(fn, Fn): raise Unsupported('comparator')
        return lambda x, y: run(fn.func, [x, y], fn.frame)
    if et.kind in ('real', 'int'): return lambda x, y: x < y
    for f in s.P.all_funcs:
        if f.name == 'operator<' and not f.is_stub:
            ps = [s.P.ty(p) for p in f.params]
            ps = [p.sub if p.kind == 'ref' else p for p in ps]
            if len(ps) == 2 and ps[0] == et and ps[1] == et:
                return lambda x, y: run(f, [x, y])
            if f.cls == repr(et) and len(ps) == 1:
                def run1(x, y, f=f):
                    o = Ref([(TRUE, s.new_obj(x, 'cmpthis'), ())])
                    a = Ref([(TRUE, s.new_obj(y, 'cmparg'), ())]) if s.P.ty(f.params[0]).kind == 'ref' else y
                    ok = s.try_guarded(TRUE, lambda: s.invoke(f, o, [a], None))
                    if ok is None: raise Unsupported('branching comparator')
                    return s.to_bool(ok)
                return run1
    raise Unsupported('no operator< for %r' % et)

# ------------------------------------------------------------------ FFTW
R2C, C2R = 1, 2
_snap = [0]
def addr(s, oid): return z3.Const('addr_' + oid, I)
def base_oid(s, p):
    if len(p.alts) != 1 or p.alts[0][1] is None: raise Unsupported('FFT buffer')
    s.oblige('fft-buffer-start', p.off == 0)
    return p.alts[0][1][0]
def mkplan(s, f, av, kind):
    nn, a, b, flags = av
    fl = ival(flags)
    s.oblige('fft-plan-size', nn >= 1)
    ia, ob = base_oid(s, a), base_oid(s, b)
    chk_buf(s, ia, kind, nn, True); chk_buf(s, ob, kind, nn, False)
    if fl is None or not (fl & 64):     # planning overwrites the arrays unless FFTW_ESTIMATE
        for o in (ia, ob): clobber(s, o)
    h = s.fresh(I, 'plan')
    s.assume(z3.And(h != 0, PLAN_N(h) == nn, PLAN_KIND(h) == kind, PLAN_IN(h) == addr(s, ia), PLAN_OUT(h) == addr(s, ob)))
    if fl is None: raise Unsupported('symbolic plan flags')
    return h
def chk_buf(s, oid, kind, nn, is_in):
    sq = s.obj(oid)
    if not isinstance(sq, Seq): raise Unsupported('FFT buffer %r' % (sq,))
    cplx = (kind == R2C) != is_in
    iscplx = isinstance(sq.data, LStruct)
    if cplx != iscplx: raise Unsupported('FFT buffer type')
    s.oblige('in-bounds', (nn / 2 + 1 if cplx else nn) <= sq.len, 'FFT buffer')
    return sq
def clobber(s, oid):
    sq = s.st.store[oid]
    s.st.store[oid] = sq.with_(data=s.fresh_lift(sq.et, 'clobber'))
@Fd('fftw_plan_dft_r2c_1d')
def _(s, f, av, n): return mkplan(s, f, av, R2C)
@Fd('fftw_plan_dft_c2r_1d')
def _(s, f, av, n): return mkplan(s, f, av, C2R)
@Fd('fftw_destroy_plan')
def _(s, f, av, n):
    s.oblige('plan-non-null', av[0] != 0)
def snapshot(s, tag, rd, lo, hi):
    """name the contents of a real array"""
    _snap[0] += 1
    a = z3.Const('%s@%d' % (tag, _snap[0]), AR)
    SNAPS[a.decl().name()] = (lo, hi, rd)
    i = z3.Int('#i')
    s.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), a[i] == rd(i)), patterns=[a[i]]))
    return a
def run_fft(s, h, kind, nn, ia, ob):
    sa = chk_buf(s, ia, kind, nn, True); so = chk_buf(s, ob, kind, nn, False)
    s.oblige('fft-out-of-place', FALSE if ia == ob else TRUE)
    if kind == R2C:
        A = snapshot(s, 'dftin', sa.data.read, iv(0), nn)
        d = so.data; m = nn / 2 + 1
        names = list(d.f)
        s.st.store[ob] = so.with_(data=LStruct(d.cname, {names[0]: FRange(d.f[names[0]], iv(0), m, lambda k: DFTRE(A, nn, k)), names[1]: FRange(d.f[names[1]], iv(0), m, lambda k: DFTIM(A, nn, k))}))
        s.st.ghost.setdefault('dfts', ())
        s.st.ghost['dfts'] = s.st.ghost['dfts'] + (('r2c', A, nn),)
        clobber(s, ia)
    else:
        names = list(sa.data.f)
        XR = snapshot(s, 'dftXr', sa.data.f[names[0]].read, iv(0), nn / 2 + 1); XI = snapshot(s, 'dftXi', sa.data.f[names[1]].read, iv(0), nn / 2 + 1)
        s.st.store[ob] = so.with_(data=FRange(so.data, iv(0), nn, lambda k: IDFT(XR, XI, nn, k)))
        s.st.ghost['dfts'] = s.st.ghost.get('dfts', ()) + (('c2r', XR, XI, nn),)
        clobber(s, ia)
@Fd('fftw_execute')
def _(s, f, av, n):
    h = av[0]
    s.oblige('plan-non-null', h != 0)
    cands = [o for o, k in s.st.heap.items() if k == 'heap' and isinstance(s.st.store.get(o), Seq) and o not in s.st.freed]
    kind = None
    for k in (R2C, C2R):
        if s.proves_full(PLAN_KIND(h) == k): kind = k
    if kind is None: 
        s.oblige('plan-known', FALSE, 'fftw_execute of a plan of unknown kind'); raise X.Infeasible()
    ia = [o for o in cands if s.proves_full(PLAN_IN(h) == addr(s, o))]
    ob = [o for o in cands if s.proves_full(PLAN_OUT(h) == addr(s, o))]
    if len(ia) != 1 or len(ob) != 1:
        s.oblige('plan-known', FALSE, 'fftw_execute of a plan with unknown buffers'); raise X.Infeasible()
    run_fft(s, h, kind, PLAN_N(h), ia[0], ob[0])
@Fd('fftw_execute_dft_r2c', 'fftw_execute_dft_c2r')
def _(s, f, av, n):
    h, a, b = av
    kind = R2C if f.name.endswith('r2c') else C2R
    s.oblige('plan-kind', z3.And(h != 0, PLAN_KIND(h) == kind))
    run_fft(s, h, kind, PLAN_N(h), base_oid(s, a), base_oid(s, b))
