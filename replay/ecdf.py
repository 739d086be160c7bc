"""Cases for the probability functions, with expected values from the oracle."""
import random, time, os
from .lib import *

def levels(rng, n, k):
    """n sorted values with at most k distinct ones"""
    ls = sorted(rng.choice([0.0, 1.0, rng.random(), rng.random(), rng.randint(0, 8) / 8.0]) for _ in range(k))
    return sorted(rng.choice(ls) for _ in range(n))
def one_list(rng, n, side):
    """a random valid list whose event has a reasonable probability"""
    kind = rng.randrange(9)
    if kind == 0: v = [rng.random() for _ in range(n)]
    elif kind == 1: v = [rng.randint(0, 4) / 4.0 for _ in range(n)]
    elif kind == 2: v = levels(rng, n, rng.randint(1, 4))
    elif kind == 3: v = [0.0] * n if side == 'b' else [1.0] * n
    elif kind == 4: v = [1.0] * n if side == 'b' and rng.random() < .3 else [min(1, max(0, (i + .5) / n + rng.uniform(-.5, .5) / max(1, n ** .5))) for i in range(n)]
    elif kind == 5:
        c = rng.uniform(.2, 1.5) / max(1, n) ** .5
        v = [min(1, max(0, (i + (0 if side == 'b' else 1)) / n + (-c if side == 'b' else c))) for i in range(n)]
    elif kind == 6:
        c = rng.uniform(.2, 1.5) / max(1, n) ** .5
        v = [round(8 * min(1, max(0, i / n + (-c if side == 'b' else c)))) / 8 for i in range(n)]
    elif kind == 7:
        v = [rng.random() ** (3 if side == 'b' else .33) for _ in range(n)]
    else:
        z = rng.randint(0, n); v = [0.0] * z + [rng.random() for _ in range(n - z)]
        if side == 'B': v = [1.0 - x for x in v]
    return sorted(v)
def pair(rng, n):
    for _ in range(6):
        b, B = one_list(rng, n, 'b'), one_list(rng, n, 'B')
        if rng.random() < .35: break
        m = [(min(x, y), max(x, y)) for x, y in zip(b, B)]
        b, B = sorted(x for x, y in m), sorted(y for x, y in m)
        if rng.random() < .15 and n:      # a point interval
            i = rng.randrange(n); B[i] = b[i]; B.sort()
        break
    return b, B
SMALL = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 24, 25, 26, 31, 32, 33, 36, 37, 40, 48, 49, 50, 63, 64, 65, 81, 99, 100, 101]
BIG = [127, 128, 129, 150, 199, 200, 225, 255, 256, 257, 300, 400, 510, 511, 512, 513, 600, 766, 767, 768, 769, 1000, 1022, 1023, 1024, 1025, 1300, 1535, 1536, 1537, 2047, 2048, 2049, 2500, 3000]

def cases(rng, algs, count, big):
    """(id, alg, b, B)"""
    out = []; k = 0
    def add(al, b, B):
        out.append((str(len(out)), al, b, B))
    def emit(n, b, B):
        for al in algs:
            if al.startswith('two'): add(al, b, B)
            elif al.endswith('b'): add(al, b, [])
            else: add(al, [], B)
    for n in SMALL[:14]:
        emit(n, [0.0] * n, [1.0] * n)
        emit(n, [1.0] * n, [1.0] * n); emit(n, [0.0] * n, [0.0] * n)
        emit(n, [0.25] * n, [0.75] * n)
    for _ in range(count):
        n = rng.choice(SMALL) if rng.random() < .7 else rng.randint(0, 120)
        b, B = pair(rng, n)
        emit(n, b, B)
    for _ in range(big):
        n = rng.choice(BIG)
        k = rng.randint(1, 5)
        b, B = sorted(levels(rng, n, k)), sorted(levels(rng, n, k))
        if rng.random() < .8:
            b = [x * rng.choice([0.0, .5]) for x in b] if rng.random() < .3 else sorted(max(0, (round(k * i / n) / k) - rng.uniform(0, .15)) for i in [n * j // (8 * 1) for j in range(8) for _ in range(n // 8)] + [n] * (n - 8 * (n // 8)))
            c = rng.uniform(.5, 1.5) / n ** .5
            g = rng.choice([4, 8, 16])
            b = sorted(max(0.0, int(g * i / n) / g - c) for i in range(n)); B = sorted(min(1.0, (int(g * i / n) + 1) / g + c) for i in range(n))
        emit(n, b, B)
    return out

def expected(cs, exe, timeout=200):
    """oracle values, computed in parallel chunks"""
    import concurrent.futures as cf
    chunks = [cs[k::8] for k in range(8)]
    def go(ch): return run_lines(exe, [line(i, al, b, B) for i, al, b, B in ch], timeout) if ch else {}
    r = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for d in ex.map(go, chunks): r.update(d)
    return {k: float(v) for k, v in r.items() if not v.startswith('DIED')}
