"""Contracts: the two programs (src/crossprob.cc, src/crossprob_mc.cc), main() down to the contracts of the library functions."""
import z3
from vcg.term import *
from vcg.values import *
from vcg.exec import *
from vcg.loops import Detached
from vcg.contracts import *
from vcg import lib
from .ncp import *
from .common import valid
from .io import ELEMS, list_len, file_bad, bad_long, FLINE, STRTOL, strlen_ok, facts_list

class ArgvArr(FArr):
    """argv: argc strings and a null pointer"""
    def __init__(s, ex, argc): s.ex, s.argc, s.p = ex, argc, {}
    def read(s, i):
        k = ival(zint(i))
        if k is None: raise Unsupported('argv[i] with a computed i')
        if k not in s.p:
            o = s.ex.new_obj(arg(k), 'argv%d' % k)
            s.p[k] = o
        o = s.p[k]
        if o not in s.ex.st.store: s.ex.st.store[o] = arg(k)
        return Ptr([(s.argc > k, (o, (), True, None)), (s.argc <= k, None)], 0)
def arg(k): return z3.Const('ARG%d' % k, I)

class Main(Contract):
    qual = 'main'; nparams = 2; tu = None
    def find(s, P): return P.find('main', 2, tu=s.tu)
    def setup(s, ex, f):
        argc = z3.Const('ARGC', I)
        ex.assume(z3.And(0 <= argc, argc <= 2 ** 20))
        o = ex.new_obj(Seq(argc + 1, ArgvArr(ex, argc), ex.P.ty(f.params[1]).sub, None, 'arr'), 'argv')
        for k in range(1, s.nargs): strlen_ok(ex, arg(k))
        return None, [argc, ex.seq_ptr(Ref([(TRUE, o, ())]))]
    def is_cmd(s, ex, name): return lib.str_eq(ex, arg(1), ex.lit_str(name))
    def lists(s, ex):
        f = arg(2); l = [FLINE(f, iv(k)) for k in (0, 1)]
        for x in l:
            strlen_ok(ex, x)
            for h in facts_list(x): ex.assume(h)
            ex.assume(list_len(x) <= NMAX)
        ex.trusted.add('boundary files of at most 2^20 numbers per line')
        return [list_len(x) for x in l], [ELEMS(x) for x in l]
    def spec(s, C):
        s.n, s.E = s.lists(C.ex); s.good = s.accepted(C.ex)
        return Spec()
    def check_frame(s, ex, C, sp, ent): pass
    def check_throw(s, ex, C, sp, t, ent):
        if t.cls == '#exit': s.check_return(ex, C, sp, t.obj, ent)
        else: Contract.check_throw(s, ex, C, sp, t, ent)
    def check_return(s, ex, C, sp, rv, ent):
        if rv is None: rv = iv(0)
        out = ex.st.out
        for st, k, v in out:
            if st == '?': raise Unsupported('output in a loop')
            if st != 'cout': continue
            if k == 'manip' and v not in ('endl', 'flush'): raise Unsupported('output manipulator %s' % v)
            if k == 'num' and not isinstance(v, z3.ExprRef): raise Unsupported('output of %r' % (v,))
        nums = [v for st, k, v in out if st == 'cout' and k == 'num' and v.sort() == R]
        other = [v for st, k, v in out if st == 'cout' and k == 'num' and v.sort() != R]
        texts = [v for st, k, v in out if st in ('cout', 'cerr') and k == 'text']
        lits = {v.get_id(): t for t, v in ex.lits.items()}
        if ex.branch(rv == 0):
            s.post(ex, 'status 0 only for an accepted request', s.good, sp)
            s.post(ex, 'status 0: exactly one number is printed', TRUE if len(nums) == 1 and not other else FALSE, sp)
            for v in texts:
                t = lits.get(v.get_id()) if isinstance(v, z3.ExprRef) else None
                s.post(ex, 'status 0: nothing but the number is printed', TRUE if t is not None and not t.strip() else FALSE, sp)
            for st, k, v in out:
                if k == 'precision': s.post(ex, 'status 0: at least 6 digits', v >= 6, sp)
                if st == 'cout' and k == 'char': s.post(ex, 'status 0: nothing but the number is printed', z3.Or(v == 10, v == 32), sp)
            if len(nums) == 1: s.value(ex, sp, nums[0])
        else:
            s.post(ex, 'an error is reported only for a request that is not accepted', lnot(s.good), sp, s.bad_hints(ex))
            s.post(ex, 'error: non-zero exit status', rv % 256 != 0, sp)
            s.post(ex, 'error: no probability is printed', FALSE if nums else TRUE, sp)
            s.post(ex, 'error: a message is printed', TRUE if any(not isinstance(v, z3.ExprRef) or lits.get(v.get_id(), b'x').strip() for v in texts) else FALSE, sp)
    def bad_hints(s, ex): return []
    def calls(s, ex, names): return [c for c in ex.st.ghost.get('calls', ()) if c[0] in names]

def ncp_apps(v):
    out = []; seen = set(); st = [v]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(NCP): out.append(x)
        st.extend(x.children())
    return out

ALGS = {'ecdf1-mns2016': ('ecdf1_mns2016_b', 'ecdf1_mns2016_B'), 'ecdf1-new': ('ecdf1_new_b', 'ecdf1_new_B'), 'ecdf2-ks2001': ('ecdf2', FALSE), 'ecdf2-mn2017': ('ecdf2', TRUE)}
class CrossprobMain(Main):
    name = 'crossprob: main'; tu = 'crossprob.cc'; nargs = 3
    def accepted(s, ex):
        s.cmd = {c: s.is_cmd(ex, c) for c in ALGS}
        n0, n1 = s.n; E0, E1 = s.E
        one = z3.Or(s.cmd['ecdf1-mns2016'], s.cmd['ecdf1-new']); two = z3.Or(s.cmd['ecdf2-ks2001'], s.cmd['ecdf2-mn2017'])
        shape = z3.Or(z3.And(one, (n0 == 0) != (n1 == 0)), z3.And(two, z3.Or(n0 == n1, n0 == 0, n1 == 0)))
        return land(z3.Const('ARGC', I) == 3, shape, lnot(file_bad(arg(2))), valid(lambda i: E0[i], n0), valid(lambda i: E1[i], n1))
    def value(s, ex, sp, v):
        n0, n1 = s.n; E0, E1 = s.E
        cases = [('both lists', z3.And(n0 == n1), E0, E1, n0), ('no lower list: all zeros', z3.And(n0 == 0, n1 > 0), ZEROS, E1, n1), ('no upper list: all ones', z3.And(n0 > 0, n1 == 0), E0, ONES, n0)]
        apps = ncp_apps(v)
        for nm, c, b, B_, n in cases:
            hints = []
            for a in apps:
                ex.lemma_used('ncp_ext'); hints.append(ncp_ext(a.arg(0), a.arg(1), b, B_, n))
            s.post(ex, 'status 0: the number printed is the probability of these boundaries (%s)' % nm, imp(c, v == NCP(b, B_, n)), sp, hints)
        # the algorithm asked for
        names = {x for a in ALGS.values() for x in a if isinstance(x, str)}
        cs = s.calls(ex, names)
        if len(cs) != 1: s.post(ex, 'status 0: one algorithm is run', FALSE, sp); return
        nm, av = cs[0]
        ok = []
        for c, a in ALGS.items():
            if a[0] == 'ecdf2':
                if nm == 'ecdf2':
                    fl = av[2]
                    ok.append(land(s.cmd[c], lib_bool(ex, fl) == a[1]))
            elif nm in a: ok.append(s.cmd[c])
        s.post(ex, 'status 0: the algorithm run is the one requested', lor(*ok), sp)
def lib_bool(ex, v):
    if isinstance(v, Ref): v = ex.load(v)
    return v if v.sort() == B else v != 0

class CrossprobMcMain(Main):
    name = 'crossprob_mc: main'; tu = 'crossprob_mc.cc'; nargs = 4
    MODES = {'poisson': 'poisson_process_crossing_probability_montecarlo', 'ecdf': 'ecdf_crossing_probability_montecarlo'}
    def accepted(s, ex):
        s.cmd = {c: s.is_cmd(ex, c) for c in s.MODES}
        return land(z3.Const('ARGC', I) == 4, lor(*s.cmd.values()), lnot(bad_long(arg(3))), STRTOL(arg(3)) >= 0, lnot(file_bad(arg(2))))
    def value(s, ex, sp, v):
        n0, n1 = s.n; E0, E1 = s.E
        cs = ex.st.ghost.get('mc_calls', ())
        if len(cs) != 1: s.post(ex, 'status 0: one simulation is run', FALSE, sp); return
        nm, first, *bd, num, r = cs[0]
        bA, bn, BA, Bn = bd
        s.post(ex, 'status 0: the simulation run is the one requested', lor(*[s.cmd[c] for c, x in s.MODES.items() if x == nm]), sp)
        n = z3.If(n0 >= n1, n0, n1)
        s.post(ex, 'status 0: sample size (intensity) is the length of the longer list', first == (z3.ToReal(n) if first.sort() == R else n), sp)
        s.post(ex, 'status 0: number of simulations', num == STRTOL(arg(3)), sp)
        s.post(ex, 'status 0: boundary lists of the file', z3.And(bn == n0, Bn == n1), sp)
        x = ex.fresh(I, 'sk')
        s.post(ex, 'status 0: boundary elements of the file', z3.And(imp(z3.And(0 <= x, x < n0), bA[x] == E0[x]), imp(z3.And(0 <= x, x < n1), BA[x] == E1[x])), sp)
        s.post(ex, 'status 0: the number printed is one minus the frequency', v == 1 - r, sp)
CONTRACTS = [CrossprobMain, CrossprobMcMain]
