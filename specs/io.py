"""Contracts: reading boundary files (src/read_boundaries_file.cc, src/string_utils.cc).

  DCNT(v,c,i)   how often character c occurs among the first i characters of v
  FST(v,c,k)    where field k of v starts: just after the k-th c (0 for k = 0); SLEN(v)+1 for the number of fields
  FIELD(v,c,k)  the text of field k
  STRTOD, STRTOD_END, STRTOD_ERR (and STRTOL...)   what libc says about a text: value, number of characters used, error"""
import z3
from vcg.term import *
from vcg.values import *
from vcg.exec import *
from vcg.exec import ret_type, SLEN, SCHAR
from vcg.loops import Detached, LoopSpec
from vcg.contracts import *
from vcg import lib
from vcg.lib import STRTOD, STRTOD_END, STRTOD_ERR, STRTOD_NAN, STRTOL, STRTOL_END, STRTOL_ERR, SUBSTR, ISOPEN, NLINES, FLINE, FREADERR
from vcg.lemma import lemma, lean_name
from .ncp import rng

def uf(nm, *so):
    f = z3.Function(nm, *so); lean_name(f, nm); return f
DCNT = uf('DCNT', I, I, I, I); FST = uf('FST', I, I, I, I)
lean_name(SCHAR, 'SCHAR'); lean_name(SLEN, 'SLEN')
VC = [('v', I), ('c', I)]
@lemma('split_count', VC + [('i', I)])
def split_count(H, v, c, i): return [i >= 0], land(DCNT(v, c, iv(0)) == 0, DCNT(v, c, i) >= 0, DCNT(v, c, i) <= i, DCNT(v, c, i + 1) == DCNT(v, c, i) + z3.If(SCHAR(v, i) == c, iv(1), iv(0)))
@lemma('split_start', VC)
def split_start(H, v, c): return [SLEN(v) >= 0], FST(v, c, iv(0)) == 0
@lemma('split_at', VC + [('i', I)])
def split_at(H, v, c, i): return [i >= 0, i < SLEN(v), SCHAR(v, i) == c], FST(v, c, DCNT(v, c, i) + 1) == i + 1
@lemma('split_end', VC)
def split_end(H, v, c): return [SLEN(v) >= 0], FST(v, c, DCNT(v, c, SLEN(v)) + 1) == SLEN(v) + 1
@lemma('split_bound', VC + [('i', I)])
def split_bound(H, v, c, i): return [i >= 0, i <= SLEN(v)], land(FST(v, c, DCNT(v, c, i)) >= 0, FST(v, c, DCNT(v, c, i)) <= i)

@lemma('split_none', VC + [('a', I), ('b', I)])
def split_none(H, v, c, a, b): return [a >= 0, a <= b, H.all(lambda t: imp(rng(a, t, b), SCHAR(v, t) != c), pat=lambda t: SCHAR(v, t))], DCNT(v, c, b) == DCNT(v, c, a)

def nfields(v, c): return DCNT(v, c, SLEN(v)) + 1
def field(v, c, k): return SUBSTR(v, FST(v, c, k), z3.simplify(FST(v, c, z3.simplify(k + 1)) - 1 - FST(v, c, k)))
COMMA = iv(44)
def n0(v): return DCNT(v, COMMA, SLEN(v))
def bad_double(x): return lor(STRTOD_END(x) == 0, STRTOD_ERR(x) != 0, STRTOD_NAN(x))
def list_len(v):
    """number of fields, not counting an empty last one"""
    n = DCNT(v, COMMA, SLEN(v))
    return z3.If(FST(v, COMMA, n) == SLEN(v), n, n + 1)
def list_elem(v, k): return STRTOD(field(v, COMMA, k))
ELEMS = z3.Function('ELEMS', I, z3.ArraySort(I, R))     # the numbers of a line: ELEMS(v)[k] = list_elem(v, k) for 0 <= k < list_len(v)
k_ = z3.Int('#k')
def list_bad(v):
    f = field(v, COMMA, k_)
    return z3.Exists([k_], z3.And(0 <= k_, k_ < list_len(v), bad_double(f)))
def strlen_ok(ex, v): ex.assume(z3.And(SLEN(v) >= 0, SLEN(v) <= 2 ** 30))
def touch_errno(ex, sp):
    """callers may assume nothing about errno afterwards"""
    o = ex.st.ghost.get('errno')
    if o is not None: sp.mods = sp.mods + [Any(Ref([(TRUE, o, ())]))]

class StringToDouble(Contract):
    name = 'string_to_double'; qual = name; nparams = 1
    def spec(s, C):
        sp = Spec(); ex = C.ex; x = C.val(0); strlen_ok(ex, x)
        sp.throws = [('runtime_error', bad_double(x))]
        sp.result = STRTOD(x); touch_errno(ex, sp)
        return sp
class StringToLong(Contract):
    name = 'string_to_long'; qual = name; nparams = 1
    def spec(s, C):
        sp = Spec(); ex = C.ex; x = C.val(0); strlen_ok(ex, x)
        e = STRTOL_END(x)
        sp.throws = [('runtime_error', bad_long(x))]
        sp.result = STRTOL(x); touch_errno(ex, sp)
        sp.hints = long_facts(x)
        sp.result_facts = lambda r: [('range', z3.And(r >= -2 ** 63, r < 2 ** 63))]
        return sp
    def make_result(s, ex, f, sp):
        ex.assume(z3.And(sp.result >= -2 ** 63, sp.result < 2 ** 63)); return sp.result
def long_facts(x): return []
def bad_long(x):
    e = STRTOL_END(x)
    return lor(e == 0, STRTOL_ERR(x) != 0, land(e < SLEN(x), SCHAR(x, e) != 0))

class SplitLoop(LoopSpec):
    name = 'split: scan'; func = 'split'
    def match(s, L):
        """the list being built, and the start of the current field: what the loop changes apart from its counter"""
        def names(x):
            if not isinstance(x, dict): return set()
            out = {x['referencedDecl'].get('name')} if x.get('kind') == 'DeclRefExpr' else set()
            for c in x.get('inner', []) or []: out |= names(c)
            return out
        # the counter: what the step of a for statement changes; otherwise what the condition looks at
        if L.n['kind'] == 'ForStmt': counter = names((L.n['inner'] + [None] * 5)[3])
        else: counter = names(L.n['inner'][-1 if L.n['kind'] == 'DoStmt' else 0])
        vecs = []; ints = []
        for nm in L.modified_names():
            v = L.S0.store.get(L.names[nm].alts[0][1])
            (vecs if isinstance(v, Seq) else ints).append(nm)
        ints = [x for x in ints if x not in counter]
        if len(vecs) != 1 or len(ints) != 1 or searches(L.n): return False
        s.vec, s.cur = vecs[0], ints[0]
        return True
    def args(s, V):
        v = V(s.params[0]); c = V(s.params[1]); return v, c
    def facts(s, V):
        v, c = s.args(V); k = V.kappa
        out = [('position', z3.And(0 <= k, k <= SLEN(v))), ('fields so far', V(s.vec).len == DCNT(v, c, k))]
        return out + [('start of the current field', V(s.cur) == FST(v, c, DCNT(v, c, k)))]
    def arrays(s, V):
        v, c = s.args(V)
        return [(V.ref(s.vec), iv(0), DCNT(v, c, V.kappa), lambda j: field(v, c, j))]
    def lemmas(s, V):
        v, c = s.args(V); k = V.kappa
        return [('split_count', split_count(v, c, k)), ('split_at', split_at(v, c, k)), ('split_bound', split_bound(v, c, k)), ('split_end', split_end(v, c)), ('split_start', split_start(v, c))]
    def check_lemmas(s, V, when):
        v, c = s.args(V)
        if when == 'initially': return [('split_start', split_start(v, c)), ('split_count', split_count(v, c, iv(0)))]
        return []
    def elem_lemmas(s, V, when, x): return []
def searches(n):
    if not isinstance(n, dict): return False
    return n.get('kind') == 'MemberExpr' and n.get('name') in ('find', 'find_first_of') or any(searches(x) for x in n.get('inner', []) or [])
class SplitFind(SplitLoop):
    name = 'split: one field per iteration'
    def match(s, L):
        vecs = []; ints = []
        for nm in L.modified_names():
            v = L.S0.store.get(L.names[nm].alts[0][1])
            (vecs if isinstance(v, Seq) else ints).append((nm, v))
        if len(vecs) != 1 or not searches(L.n): return False
        start = [nm for nm, v in ints if z3.is_expr(v) and ival(v) == 0]; pos = [nm for nm, v in ints if z3.is_expr(v) and v.sort() == I and ival(v) is None]
        if len(start) != 1 or len(pos) > 1: return False
        s.vec, s.cur = vecs[0][0], start[0]; s.pos = pos[0] if pos else None
        return True
    def facts(s, V):
        v, c = s.args(V); k = V.kappa; a = V(s.cur)
        out = [('fields so far', V(s.vec).len == k), ('start of the current field', z3.And(0 <= a, a <= SLEN(v), a == FST(v, c, k), DCNT(v, c, a) == k))]
        if s.pos:
            p = V(s.pos); t = z3.Int('#q'); end = z3.If(p == 2 ** 64 - 1, SLEN(v), p)
            out += [('next delimiter', z3.Or(p == 2 ** 64 - 1, z3.And(a <= p, p < SLEN(v), SCHAR(v, p) == c))),
                    ('no delimiter before it', z3.ForAll([t], imp(z3.And(a <= t, t < end), SCHAR(v, t) != c), patterns=[SCHAR(v, t)]))]
        return out
    def arrays(s, V):
        v, c = s.args(V)
        return [(V.ref(s.vec), iv(0), V.kappa, lambda j: field(v, c, j))]
    def lemmas(s, V):
        v, c = s.args(V); a = V(s.cur)
        out = [('split_end', split_end(v, c)), ('split_start', split_start(v, c)), ('split_none', split_none(v, c, a, SLEN(v)))]
        if s.pos: out += s.at(v, c, a, V(s.pos))
        return out
    def at(s, v, c, a, p): return [('split_none', split_none(v, c, a, p)), ('split_count', split_count(v, c, p)), ('split_at', split_at(v, c, p))]
    def check_lemmas(s, V, when):
        v, c = s.args(V)
        if when == 'initially': return [('split_start', split_start(v, c)), ('split_count', split_count(v, c, iv(0)))]
        return s.at(v, c, V.head(s.cur), z3.simplify(V(s.cur) - 1))
    def elem_lemmas(s, V, when, x): return [f for _, f in s.check_lemmas(V, when)]
class Split(Contract):
    name = 'split'; qual = name; nparams = 2; loops_any = True
    def __init__(s):
        s.L = SplitLoop(); s.L2 = SplitFind(); s.loops = (s.L, s.L2)
    def find(s, P):
        fs = [f for f in P.find('split', 2) if not f.cls]
        for f in fs: s.L.params = s.L2.params = [p.get('name') for p in f.params]
        return fs
    def spec(s, C):
        sp = Spec(); ex = C.ex
        v, c = C.val(0), C.val(1)
        strlen_ok(ex, v)
        t = ret_type(ex, C.f)
        n = nfields(v, c)
        sp.result_arr = (n, t.args[0], iv(0), n, lambda j: field(v, c, j))
        sp.hints = [split_start(v, c), split_end(v, c), split_count(v, c, SLEN(v))]
        return sp
    def make_result(s, ex, f, sp):
        r = Contract.make_result(s, ex, f, sp)
        for h in sp.hints: ex.assume(h)
        return r

class ReadList(Contract):
    name = 'read_comma_delimited_doubles'; qual = name; nparams = 1
    def spec(s, C):
        sp = Spec(); ex = C.ex
        v = C.val(0); strlen_ok(ex, v)
        for L in facts_list(v): ex.assume(L)
        sp.throws = [('runtime_error', list_bad(v))]
        last = field(v, COMMA, DCNT(v, COMMA, SLEN(v)))
        n = list_len(v)
        ex.assume(imp(FST(v, COMMA, n0(v)) <= SLEN(v), SLEN(last) == SLEN(v) - FST(v, COMMA, n0(v))))     # length of a substring
        sp.result_arr = (n, DBL, iv(0), n, lambda j: list_elem(v, j))
        touch_errno(ex, sp)
        return sp
def facts_list(v):
    return [split_start(v, COMMA), split_end(v, COMMA), split_count(v, COMMA, SLEN(v)), split_bound(v, COMMA, SLEN(v))]

class ReadFile(Contract):
    name = 'read_and_check_boundaries_file'; qual = name; nparams = 1
    def spec(s, C):
        sp = Spec(); ex = C.ex
        f = C.val(0); s.rt = ret_type(ex, C.f)
        bad = file_bad(f)
        # refused exactly when it is bad; a caller cannot tell which of the two kinds of error it gets
        sp.throws = [('runtime_error', bad)] if ex.verifying is s else [('failure', land(ex.fresh(B, 'failure'), bad)), ('runtime_error', bad)]
        l0, l1 = FLINE(f, iv(0)), FLINE(f, iv(1))
        for l in (l0, l1):
            strlen_ok(ex, l)
            for h in facts_list(l): ex.assume(h)
        s.lines = (l0, l1)
        def make():
            c = ex.P.classes.get(repr(s.rt))
            fl = {}
            for (nm, fd, _, _), l in zip(c.fields, (l0, l1)):
                fl[nm] = Seq(list_len(l), FBase(ELEMS(l)), DBL, ex.bid(), 'vec')
                ex.assume(list_len(l) >= 0)
                # ELEMS(l)[k] is list_elem(l, k), a value of strtod
                ex.assume(z3.ForAll([k_], imp(z3.And(0 <= k_, k_ < list_len(l)), z3.And(-lib.INF <= ELEMS(l)[k_], ELEMS(l)[k_] <= lib.INF)), patterns=[ELEMS(l)[k_]]))
            return Struct(repr(s.rt), fl)
        sp.result_make = make; touch_errno(ex, sp)
        return sp
    def check_more(s, ex, C, sp, rv, ent):
        if not isinstance(rv, Struct) or len(rv.f) != 2: raise Detached('result of read_and_check_boundaries_file')
        for what, q, l in zip(('lower', 'upper'), rv.f.values(), s.lines):
            s.post(ex, 'length of the %s list' % what, q.len == list_len(l), sp)
            x = ex.fresh(I, 'sk')
            s.post(ex, 'elements of the %s list' % what, imp(z3.And(x >= 0, x < list_len(l)), q.data.read(x) == list_elem(l, x)), sp)
def file_bad(f):
    l0, l1 = FLINE(f, iv(0)), FLINE(f, iv(1))
    return lor(lnot(ISOPEN(f)), FREADERR(f, iv(0)), NLINES(f) < 1, list_bad(l0), FREADERR(f, iv(1)), NLINES(f) < 2, list_bad(l1))

CONTRACTS = [StringToDouble, StringToLong, Split, ReadList, ReadFile]
