"""Terms: thin helpers over z3, functional arrays, and Sum closures."""
import hashlib
from fractions import Fraction
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

def iv(n): return z3.IntVal(n)
def rvl(x):
    if isinstance(x, float): x = Fraction(x)
    if isinstance(x, Fraction): return z3.RealVal('%d/%d' % (x.numerator, x.denominator))
    return z3.RealVal(x)
def is_num(e): return z3.is_int_value(e) or z3.is_rational_value(e)
def ival(e):
    return e.as_long() if z3.is_int_value(e) else None
def simp(e): return z3.simplify(e)
def lin(e):
    """cheap canonical form for arithmetic terms"""
    return z3.simplify(e, som=True) if z3.is_expr(e) else e

def zint(e):
    return iv(e) if isinstance(e, int) and not isinstance(e, bool) else e

def add(a, b):
    a, b = zint(a), zint(b)
    if is_num(a) and a.as_string() == '0': return b if b.sort() == a.sort() else a + b
    if is_num(b) and b.as_string() == '0': return a
    r = a + b
    return z3.simplify(r) if r.sort() == I else r
def sub(a, b):
    a, b = zint(a), zint(b)
    if is_num(b) and b.as_string() == '0': return a
    r = a - b
    return z3.simplify(r) if r.sort() == I else r
def mul(a, b):
    a, b = zint(a), zint(b)
    for x, y in ((a, b), (b, a)):
        if is_num(x):
            s = x.as_string()
            if s == '0': return x
            if s == '1': return y
    r = a * b
    return z3.simplify(r) if r.sort() == I else r

def land(*xs):
    out = []
    for x in xs:
        if z3.is_true(x): continue
        if z3.is_false(x): return FALSE
        out.append(x)
    if not out: return TRUE
    return out[0] if len(out) == 1 else z3.And(*out)
def lor(*xs):
    out = []
    for x in xs:
        if z3.is_false(x): continue
        if z3.is_true(x): return TRUE
        out.append(x)
    if not out: return FALSE
    return out[0] if len(out) == 1 else z3.Or(*out)
def lnot(x):
    if z3.is_true(x): return FALSE
    if z3.is_false(x): return TRUE
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def imp(a, b):
    if z3.is_true(a): return b
    if z3.is_false(a): return TRUE
    return z3.Implies(a, b)

def idx_rel(i, j):
    """True: equal, False: distinct, None: unknown (syntactically)"""
    if i.eq(j): return True
    d = z3.simplify(i - j)
    if z3.is_int_value(d): return d.as_long() == 0
    return None

# ---------------------------------------------------------------- functional arrays
_scratch = [0]
def scratch(sort, tag='#x'):
    _scratch[0] += 1
    return z3.Const('%s%d' % (tag, _scratch[0]), sort)

class FArr:
    """Int-indexed functional array; read(i) yields a z3 scalar or an FArr."""
    def read(s, i): raise NotImplementedError
    def base(s): return None

class FBase(FArr):
    def __init__(s, a): s.a = a
    def read(s, i):
        r = z3.Select(s.a, i)
        if z3.is_array(r): return FBase(r)
        return r
    def __repr__(s): return 'FBase(%s)' % s.a

class FConst(FArr):
    def __init__(s, v): s.v = v
    def read(s, i): return s.v

class FStore(FArr):
    def __init__(s, prev, i, v): s.prev, s.i, s.v = prev, zint(i), v
    def read(s, j):
        j = zint(j)
        r = idx_rel(s.i, j)
        if r is True: return s.v
        if r is False: return s.prev.read(j)
        return ite(s.i == j, s.v, s.prev.read(j))

class FFn(FArr):
    def __init__(s, fn, tag=''): s.fn = fn; s.tag = tag
    def read(s, i): return s.fn(zint(i))

class FIte(FArr):
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b
    def read(s, i): return ite(s.c, s.a.read(i), s.b.read(i))

class FRange(FArr):
    """read(x) = fn(x) for lo <= x < hi, prev.read(x) otherwise"""
    def __init__(s, prev, lo, hi, fn): s.prev, s.lo, s.hi, s.fn = prev, zint(lo), zint(hi), fn
    def read(s, x):
        x = zint(x)
        c = z3.simplify(z3.And(s.lo <= x, x < s.hi))
        if z3.is_true(c): return s.fn(x)
        if z3.is_false(c): return s.prev.read(x)
        return ite(c, s.fn(x), s.prev.read(x))

def ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a is b: return a
    if isinstance(a, FArr): return FIte(c, a, b)
    if a.eq(b): return a
    if a.sort() != b.sort():
        if a.sort() == I and b.sort() == R: a = z3.ToReal(a)
        elif a.sort() == R and b.sort() == I: b = z3.ToReal(b)
    return z3.If(c, a, b)

def subst_any(v, pairs):
    if isinstance(v, FArr):
        def fn(i, v=v):
            x = scratch(I)
            e = subst_any(v.read(x), pairs)
            return subst_any(e, [(x, i)])
        return FFn(fn)
    if not pairs: return v
    return z3.substitute(v, *pairs)

def consts_of(e, acc=None, seen=None):
    """free 0-ary uninterpreted constants"""
    if acc is None: acc = {}
    if seen is None: seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in seen: continue
        seen.add(k)
        if z3.is_quantifier(x):
            stack.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.setdefault(x.decl().name(), x)
            else:
                stack.extend(x.children())
    return acc

def apps_of(e, pred, acc=None, seen=None):
    if acc is None: acc = {}
    if seen is None: seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in seen: continue
        seen.add(k)
        if z3.is_quantifier(x): continue
        if z3.is_app(x):
            if pred(x): acc[k] = x
            stack.extend(x.children())
    return acc

def has_quant(e):
    stack = [e]; seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        stack.extend(x.children())
    return False

# ---------------------------------------------------------------- Sums
class SumReg:
    """Sum_{t=0}^{hi-1} body(t).  The symbol is a function of every scalar
    constant of the body (so substitution works on the arguments)."""
    def __init__(self):
        self.defs = {}   # name -> (decl, params, tvar, body)
    def make(self, fn, hi):
        t = z3.Const('#t', I)
        body = fn(t)
        body = z3.simplify(body)
        cs = {}
        order = []
        def walk(e, seen):
            if e.get_id() in seen: return
            seen.add(e.get_id())
            if z3.is_app(e):
                if e.num_args() == 0:
                    if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() != '#t' and not z3.is_array(e) and e.decl().name() not in cs:
                        cs[e.decl().name()] = e; order.append(e)
                for c in e.children(): walk(c, seen)
            elif z3.is_quantifier(e): walk(e.body(), seen)
        walk(body, set())
        params = [z3.Const('#p%d_%s' % (k, c.sort()), c.sort()) for k, c in enumerate(order)]
        cb = z3.substitute(body, *zip(order, params)) if order else body
        key = cb.sexpr()
        name = 'Sum_' + hashlib.md5(key.encode()).hexdigest()[:10]
        if name not in self.defs:
            d = z3.Function(name, *([p.sort() for p in params] + [I, body.sort()]))
            self.defs[name] = (d, params, t, cb)
        d = self.defs[name][0]
        return d(*(order + [zint(hi)]))
    def is_sum(self, x):
        return x.decl().name() in self.defs
    def body(self, app, t):
        d, params, tv, cb = self.defs[app.decl().name()]
        args = app.children()[:-1]
        return z3.substitute(cb, *(list(zip(params, args)) + [(tv, zint(t))]))
    def hi(self, app): return app.children()[-1]

SUMS = SumReg()

def Sum(fn, hi): return SUMS.make(fn, hi)

def rewrite_selects(e, H, fn):
    """replace Select(H, i) by fn(i') everywhere, also inside Sum bodies."""
    cache = {}
    hname = H.decl().name()
    def go(x):
        k = x.get_id()
        if k in cache: return cache[k]
        if z3.is_quantifier(x):
            r = x
        elif not z3.is_app(x) or x.num_args() == 0:
            r = x
        elif z3.is_select(x) and x.arg(0).eq(H):
            r = fn(go(x.arg(1)))
        elif SUMS.is_sum(x):
            d, params, tv, cb = SUMS.defs[x.decl().name()]
            args = [go(c) for c in x.children()]
            if hname in consts_of(cb):
                r = Sum(lambda t: rewrite_selects(z3.substitute(cb, *(list(zip(params, args[:-1])) + [(tv, t)])), H, fn), args[-1])
            else:
                r = x.decl()(*args)
        else:
            ch = x.children()
            n = [go(c) for c in ch]
            if all(a.eq(b) for a, b in zip(ch, n)): r = x
            else: r = z3.substitute(x, *[(a, b) for a, b in zip(ch, n) if not a.eq(b)]) if False else rebuild(x, n)
        cache[k] = r
        return r
    return go(e)

def rebuild(x, n):
    d = x.decl()
    k = d.kind()
    if k == z3.Z3_OP_AND: return z3.And(*n)
    if k == z3.Z3_OP_OR: return z3.Or(*n)
    if k == z3.Z3_OP_ADD:
        r = n[0]
        for y in n[1:]: r = r + y
        return r
    if k == z3.Z3_OP_MUL:
        r = n[0]
        for y in n[1:]: r = r * y
        return r
    if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*n)
    return d(*n)

def mentions(e, names):
    """does e mention any constant in names (also through Sum bodies' arrays)?"""
    if isinstance(e, FArr):
        return mentions(e.read(scratch(I)), names)
    seen = set(); stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names: return True
            else:
                if SUMS.is_sum(x): stack.append(SUMS.defs[x.decl().name()][3])
                stack.extend(x.children())
    return False

SNAPS = {}     # named array snapshots: name -> (lo, hi, reader)
