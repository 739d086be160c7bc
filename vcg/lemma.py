"""Mathematical lemmas.  A lemma is written once, as a formula; the same formula is
instantiated in the SMT problems and printed as a Lean statement, which lean/ proves."""
import z3
from .term import *
from . import lib
from .exec import RDIV_F

AR = z3.ArraySort(I, R)
AI = z3.ArraySort(I, I)
REG = {}
USED = set()
_c = [0]

class Mode:
    """lean: everything quantified; inst: hypotheses instantiated by one witness (sound for an axiom
    hyps -> concl); goal: hypotheses fully quantified (they are proved)"""
    def __init__(s, kind): s.kind = kind
    def all(s, fn, sort=I, pat=None):
        """universally quantified hypothesis"""
        _c[0] += 1
        w = z3.Const('#w%d' % _c[0], sort)
        if s.kind == 'inst': return fn(w)
        return z3.ForAll([w], fn(w))
    def each(s, fn, sort=I, pat=None):
        """universally quantified conclusion"""
        _c[0] += 1
        w = z3.Const('#q%d' % _c[0], sort)
        b = fn(w)
        if pat is not None and s.kind != 'lean':
            ps = pat(w)
            return z3.ForAll([w], b, patterns=ps if isinstance(ps, list) else [ps])
        return z3.ForAll([w], b)

def fun(a): return a if callable(a) else (lambda k: z3.Select(a, k))

class Lemma:
    """params: (name, sort) ; a sort FR/FI is a function argument, handed to the body as a callable;
    an array sort is handed over as it is.  outs: existentially quantified functions."""
    def __init__(s, name, params, body, outs=()):
        s.name, s.params, s.body, s.outs = name, params, body, outs
        REG[name] = s
    def args(s, H, args):
        return [fun(a) if isinstance(so, str) else a for a, (n, so) in zip(args, list(s.params) + list(s.outs))]
    def __call__(s, *args):
        assert len(args) == len(s.params) + len(s.outs), s.name
        USED.add(s.name)
        h, c = s.body(Mode('inst'), *s.args(None, args))
        return imp(land(*h), c)
    def hyps(s, *args): return s.body(Mode('goal'), *s.args(None, args))[0]
    def concl(s, *args):
        USED.add(s.name)
        return s.body(Mode('inst'), *s.args(None, args))[1]
    def lean(s):
        con = lambda n, so: z3.Const(n, {'FR': AR, 'FI': AI}.get(so, so) if isinstance(so, str) else so)
        vs = [con(n, so) for n, so in list(s.params) + list(s.outs)]
        h, c = s.body(Mode('lean'), *s.args(None, vs))
        bs = ' '.join('(%s : %s)' % (n, lsort(so)) for n, so in s.params)
        ex = ''.join('∃ %s : %s, ' % (n, lsort(so)) for n, so in s.outs)
        t = ex + '(%s)' % pr(c)
        for x in reversed(h): t = '%s →\n    %s' % (pr(x), t)
        return '∀ %s,\n    %s' % (bs, t) if s.params else t
FR, FI = 'FR', 'FI'
def lemma(name, params, outs=()):
    def d(fn): return Lemma(name, params, fn, outs)
    return d

# ---------------------------------------------------------------- printing to Lean
FUN = {}      # z3 decl name -> lean name
def lean_name(decl, name): FUN[decl.name()] = name
for d, n in ((lib.EXP, 'Real.exp'), (lib.LOG, 'Real.log'), (lib.SQRT, 'Real.sqrt'), (lib.LGAMMA, 'lgam'), (lib.DFTRE, 'dftRe'), (lib.DFTIM, 'dftIm'), (lib.IDFT, 'idft'), (lib.POW2, 'pow2'), (lib.IPOW, 'ipow'), (lib.RPOW, 'Real.rpow')): lean_name(d, n)

def lsort(so):
    if isinstance(so, str): return '(ℤ → %s)' % ('ℝ' if so == FR else 'ℤ')
    if so == I: return 'ℤ'
    if so == R: return 'ℝ'
    if so == B: return 'Prop'
    if isinstance(so, z3.ArraySortRef): return '(%s → %s)' % (lsort(so.domain()), lsort(so.range()))
    raise Exception('sort %s' % so)
def vname(n): 
    n = n.replace('#', 'v').replace('!', '_').replace('@', '_').replace('.', '_')
    return n
def pr(e):
    if z3.is_quantifier(e):
        vs = [z3.Const(vname(e.var_name(k)) , e.var_sort(k)) for k in range(e.num_vars())]
        b = z3.substitute_vars(e.body(), *reversed(vs))
        return '(%s %s, %s)' % ('∀' if e.is_forall() else '∃', ' '.join('(%s : %s)' % (v.decl().name(), lsort(v.sort())) for v in vs), pr(b))
    if z3.is_int_value(e): return '(%d : ℤ)' % e.as_long()
    if z3.is_rational_value(e):
        f = e.as_fraction()
        return '(%d : ℝ)' % f.numerator if f.denominator == 1 else '((%d : ℝ) / %d)' % (f.numerator, f.denominator)
    if z3.is_true(e): return 'True'
    if z3.is_false(e): return 'False'
    k = e.decl().kind(); nm = e.decl().name(); c = e.children()
    if k == z3.Z3_OP_UNINTERPRETED:
        if not c: return vname(nm)
        if SUMS.is_sum(e):
            t = scratch(I, '#t')
            return '(∑ %s ∈ Finset.range (%s).toNat, %s)' % (vname(t.decl().name()), pr(SUMS.hi(e)), pr(z3.substitute(SUMS.body(e, t), (t, z3.Const(vname(t.decl().name()) + 'ᶜ', I)))).replace(vname(t.decl().name()) + 'ᶜ', '(%s : ℤ)' % vname(t.decl().name())))
        if nm == RDIV_F.name(): return '(%s / %s)' % (pr(c[0]), pr(c[1]))
        if nm not in FUN: raise Exception('no Lean name for %s' % nm)
        return '(%s %s)' % (FUN[nm], ' '.join(pr(x) for x in c))
    ops = {z3.Z3_OP_ADD: '+', z3.Z3_OP_SUB: '-', z3.Z3_OP_MUL: '*', z3.Z3_OP_AND: '∧', z3.Z3_OP_OR: '∨', z3.Z3_OP_LE: '≤', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '≥', z3.Z3_OP_GT: '>', z3.Z3_OP_DIV: '/', z3.Z3_OP_IDIV: '/'}
    if k == z3.Z3_OP_CONST_ARRAY: return '(fun _ : ℤ => %s)' % pr(c[0])
    if k == z3.Z3_OP_SELECT: return '(%s %s)' % (pr(c[0]), pr(c[1]))
    if k == z3.Z3_OP_IMPLIES: return '(%s → %s)' % (pr(c[0]), pr(c[1]))
    if k == z3.Z3_OP_EQ: return '(%s %s %s)' % (pr(c[0]), '↔' if c[0].sort() == B else '=', pr(c[1]))
    if k == z3.Z3_OP_NOT: return '(¬ %s)' % pr(c[0])
    if k == z3.Z3_OP_UMINUS: return '(-%s)' % pr(c[0])
    if k == z3.Z3_OP_TO_REAL: return '((%s : ℤ) : ℝ)' % pr(c[0])
    if k == z3.Z3_OP_ITE: return '(if %s then %s else %s)' % tuple(pr(x) for x in c)
    if k == z3.Z3_OP_DISTINCT: return '(%s ≠ %s)' % (pr(c[0]), pr(c[1]))
    if k in ops: return '(' + (' %s ' % ops[k]).join(pr(x) for x in c) + ')'
    raise Exception('cannot print %s' % e.decl())
