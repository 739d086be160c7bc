"""Value trees stored in memory objects."""
import z3
from .term import *
from .cxx import T

class Unsupported(Exception):
    pass

class _Undef:
    def __repr__(s): return 'UNDEF'
UNDEF = _Undef()

class Struct:
    __slots__ = ('cname', 'f')
    def __init__(s, cname, f): s.cname, s.f = cname, f
    def __repr__(s): return '%s%r' % (s.cname, s.f)
    def with_(s, k, v):
        d = dict(s.f); d[k] = v
        return Struct(s.cname, d)

class Seq:
    """vector / heap block / C array.  data is a lifted tree."""
    __slots__ = ('len', 'data', 'et', 'bid', 'kind')
    def __init__(s, len, data, et, bid, kind='vec'): s.len, s.data, s.et, s.bid, s.kind = zint(len), data, et, bid, kind
    def with_(s, **kw):
        r = Seq(s.len, s.data, s.et, s.bid, s.kind)
        for k, v in kw.items(): setattr(r, k, v)
        return r
    def __repr__(s): return 'Seq<%r>(len=%s)' % (s.et, s.len)

class LStruct:
    __slots__ = ('cname', 'f')
    def __init__(s, cname, f): s.cname, s.f = cname, f
class LSeq:
    __slots__ = ('len', 'data', 'et')
    def __init__(s, len, data, et): s.len, s.data, s.et = len, data, et

class Ptr:
    """guarded pointer: alts = [(guard, None | (oid, path, is_seq, bid))], common element offset"""
    __slots__ = ('alts', 'off')
    def __init__(s, alts, off): s.alts, s.off = alts, zint(off)
    def __repr__(s): return 'Ptr(%r,+%s)' % ([(a and (a[0], a[1])) for g, a in s.alts], s.off)
NULLP = Ptr([(TRUE, None)], 0)

class Ref:
    __slots__ = ('alts', 'ty')
    def __init__(s, alts, ty=None): s.alts, s.ty = alts, ty
    def __repr__(s): return 'Ref(%r)' % [(o, p) for g, o, p in s.alts]
    def ext(s, *path): return Ref([(g, o, p + path) for g, o, p in s.alts])

class Fn:
    def __init__(s, func=None, lam=None, frame=None): s.func, s.lam, s.frame = func, lam, frame

class Opaque:
    def __init__(s, tag): s.tag = tag
    def __repr__(s): return 'Opaque(%s)' % s.tag

# ------------------------------------------------------------- lifting
def unlift(d, i):
    if isinstance(d, FArr): return d.read(i)
    if isinstance(d, LStruct): return Struct(d.cname, {k: unlift(v, i) for k, v in d.f.items()})
    if isinstance(d, LSeq): return Seq(d.len.read(i), unlift(d.data, i), d.et, None, 'vec')
    raise Unsupported('unlift %r' % (d,))

def lstore(d, i, path, v):
    if isinstance(d, FArr):
        if path: raise Unsupported('nested write %r' % (path,))
        if v is UNDEF: v = scratch(I) if False else d.read(i)
        return FStore(d, i, v)
    if isinstance(d, LStruct):
        if path:
            n = dict(d.f); n[path[0]] = lstore(d.f[path[0]], i, path[1:], v)
            return LStruct(d.cname, n)
        if not isinstance(v, Struct): raise Unsupported('store %r into struct element' % (v,))
        return LStruct(d.cname, {k: lstore(x, i, (), v.f[k]) for k, x in d.f.items()})
    if isinstance(d, LSeq):
        if path: raise Unsupported('nested vector element write')
        return LSeq(FStore(d.len, i, v.len), lstore(d.data, i, (), v.data), d.et)
    raise Unsupported('lstore')

def lconst(v):
    if isinstance(v, Struct): return LStruct(v.cname, {k: lconst(x) for k, x in v.f.items()})
    if isinstance(v, Seq): return LSeq(FConst(v.len), lconst_data(v.data), v.et)
    if v is UNDEF: return None
    return FConst(v)
def lconst_data(d):
    return FConst(d) if isinstance(d, FArr) else d

def lmap(fn, *ds):
    d = ds[0]
    if isinstance(d, FArr): return fn(*ds)
    if isinstance(d, LStruct): return LStruct(d.cname, {k: lmap(fn, *[x.f[k] for x in ds]) for k in d.f})
    if isinstance(d, LSeq): return LSeq(fn(*[x.len for x in ds]), lmap(fn, *[x.data for x in ds]), d.et)
    raise Unsupported('lmap %r' % (d,))

def vite(c, a, b):
    """ite on value trees"""
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a is b: return a
    if isinstance(a, Struct): return Struct(a.cname, {k: vite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Seq):
        return Seq(ite(c, a.len, b.len), lmap(lambda x, y: ite(c, x, y), a.data, b.data), a.et, a.bid if a.bid == b.bid else None, a.kind)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        alts = []
        def key(t): return None if t is None else (t[0], t[1], t[3])
        for g, t in a.alts: alts.append((land(c, g), t))
        nc = lnot(c)
        for g, t in b.alts:
            for k, (g2, t2) in enumerate(alts):
                if key(t2) == key(t):
                    alts[k] = (lor(g2, land(nc, g)), t2); break
            else: alts.append((land(nc, g), t))
        return Ptr(alts, ite(c, a.off, b.off))
    if a is UNDEF or b is UNDEF: 
        if a is b: return UNDEF
        raise Unsupported('ite on an uninitialised value')
    if isinstance(a, (Opaque, Fn)): return a
    return ite(c, a, b)

def leaves(v, path=(), out=None):
    """flatten a value tree into {path: leaf}"""
    if out is None: out = {}
    if isinstance(v, Struct):
        for k, x in v.f.items(): leaves(x, path + (k,), out)
    elif isinstance(v, Seq):
        out[path + ('#len',)] = v.len
        out[path + ('#bid',)] = v.bid
        ldata(v.data, path + ('#data',), out)
    elif isinstance(v, Ptr):
        out[path + ('#off',)] = v.off
        out[path + ('#alts',)] = v
    else:
        out[path] = v
    return out

def ldata(d, path, out):
    if isinstance(d, LStruct):
        for k, x in d.f.items(): ldata(x, path + (k,), out)
    elif isinstance(d, LSeq):
        out[path + ('#elen',)] = d.len
        ldata(d.data, path + ('#edata',), out)
    else:
        out[path] = d

def set_leaf(v, path, x):
    if not path: return x
    h = path[0]
    if isinstance(v, Struct): return v.with_(h, set_leaf(v.f[h], path[1:], x))
    if isinstance(v, Seq):
        if h == '#len': return v.with_(len=x)
        if h == '#bid': return v.with_(bid=x)
        if h == '#data': return v.with_(data=set_ldata(v.data, path[1:], x))
    if isinstance(v, Ptr):
        if h == '#off': return Ptr(v.alts, x)
        if h == '#alts': return Ptr(x.alts, v.off)
    raise Unsupported('set_leaf %r %r' % (v, path))

def set_ldata(d, path, x):
    if not path: return x
    h = path[0]
    if isinstance(d, LStruct):
        n = dict(d.f); n[h] = set_ldata(n[h], path[1:], x); return LStruct(d.cname, n)
    if isinstance(d, LSeq):
        if h == '#elen': return LSeq(x, d.data, d.et)
        return LSeq(d.len, set_ldata(d.data, path[1:], x), d.et)
    raise Unsupported('set_ldata')

def same_leaf(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return len(a.alts) == len(b.alts) and all(x[1] == y[1] and x[0].eq(y[0]) for x, y in zip(a.alts, b.alts))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, FBase) and isinstance(b, FBase): return a.a.eq(b.a)
    if isinstance(a, FConst) and isinstance(b, FConst): return same_leaf(a.v, b.v)
    if isinstance(a, Opaque) and isinstance(b, Opaque): return a.tag == b.tag
    return False
