"""tinymt64_init_by_array for any number of keys.  Its loops over the keys are cut at an invariant: the text of the real
function, with every such loop  `init; while (cond) {body; inc}`  replaced, in place, by

    init; assert INV; havoc what the loop assigns; assume INV;
    either  { assume cond; case split on the word index; ghost step; body; inc; assert INV and the variant; stop }
    or      assume !cond

The ghost step advances the reference algorithm (tinymt_array.h) by one key; INV says that the code's four words equal
those of the reference after j steps.  One CBMC run per (place, value of the word index); dfcc enforces the contract
(frame, postcondition) around it.  Whatever the extraction cannot place makes the caller fall back to bounded key lists."""
import os, re, json, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
class No(Exception): pass

def off(loc):
    if 'expansionLoc' in loc: loc = loc['expansionLoc']
    return loc
def rng(n):
    b, e = off(n['range']['begin']), off(n['range']['end'])
    return b['offset'], e['offset'] + e['tokLen']
def nodes(n):
    if isinstance(n, dict):
        if n.get('kind'): yield n
        for x in n.get('inner', []) or []: yield from nodes(x)
def ref(n):
    while isinstance(n, dict) and n.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): n = n['inner'][0]
    return n['referencedDecl'] if isinstance(n, dict) and n.get('kind') == 'DeclRefExpr' else None
def assigned(n):
    """declarations assigned in n (arrays: some element)"""
    out = {}
    def target(t):
        while t.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ArraySubscriptExpr'): t = t['inner'][0]
        r = ref(t)
        if r is None: raise No('an assignment through an expression')
        out[r['id']] = r
    for x in nodes(n):
        k = x['kind']
        if k in ('BinaryOperator', 'CompoundAssignOperator') and (k != 'BinaryOperator' or x.get('opcode') == '='): target(x['inner'][0])
        elif k == 'UnaryOperator' and x.get('opcode') in ('++', '--'): target(x['inner'][0])
        elif k == 'UnaryOperator' and x.get('opcode') == '&' or k in ('LambdaExpr', 'MemberExpr', 'BreakStmt', 'ContinueStmt', 'ReturnStmt', 'GotoStmt', 'GCCAsmStmt', 'CXXThrowExpr'): raise No(k + ' in a loop')
        elif k == 'CallExpr':
            for a in x['inner'][1:]:
                if '*' in a.get('type', {}).get('qualType', '') or '[' in a.get('type', {}).get('qualType', ''): raise No('a pointer is passed in a loop')
        elif k == 'VarDecl' and '&' in x.get('type', {}).get('qualType', ''): raise No('a reference in a loop')
    return out
def ty(r):
    t = r.get('type', {}); q = t.get('desugaredQualType', t.get('qualType', ''))
    return q

def transform(src, place, case):
    """the text of the source file with the loops cut"""
    p = subprocess.run(['clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++', '-std=c++11', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=tinymt64_init_by_array', src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
    dec = json.JSONDecoder(); fs = []; s = p.stdout; i = 0
    while i < len(s):
        while i < len(s) and s[i] not in '{': i += 1
        if i >= len(s): break
        n, i = dec.raw_decode(s, i); fs.append(n)
    fs = [f for f in fs if f.get('kind') == 'FunctionDecl' and any(x.get('kind') == 'CompoundStmt' for x in f.get('inner', []))]
    if len(fs) != 1: raise No('no single definition')
    f = fs[0]; params = [x for x in f['inner'] if x.get('kind') == 'ParmVarDecl']; body = [x for x in f['inner'] if x.get('kind') == 'CompoundStmt'][0]
    if len(params) != 3: raise No('parameters')
    rn, key, n = [x.get('name') for x in params]
    with open(src, 'rb') as h: text = h.read()
    g = lambda a, b: text[a:b].decode('latin1')
    T = lambda x: g(*rng(x)) if x and x.get('kind') else ''
    loops = [x for x in body['inner'] if x.get('kind') in ('ForStmt', 'WhileStmt')]
    if any(x['kind'] in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'GotoStmt') and x not in loops for x in nodes(body)) or not 2 <= len(loops) <= 3: raise No('loops')
    cut, last = loops[:-1], loops[-1]
    arrs = [x for x in nodes(body) if x['kind'] == 'VarDecl' and re.fullmatch(r'(uint64_t|unsigned long|unsigned long long)\s*\[4\]', x['type']['qualType'])]
    if len(arrs) != 1: raise No('array of four words')
    st = arrs[0]['name']
    js = {}
    for x in nodes(body):
        if x['kind'] == 'ArraySubscriptExpr':
            r = ref(x['inner'][0])
            if r is not None and r['id'] == params[1]['id']:
                v = ref(x['inner'][1])
                if v is None: raise No('index of the key')
                js[v['id']] = v['name']
    if len(js) != 1: raise No('index of the key')
    jid, j = list(js.items())[0]
    ins = []        # (from, to, text)
    EQ = ' && '.join('%s[%d] == g_st[%d]' % (st, k, k) for k in range(4)); SYNC = ' '.join('%s[%d] = g_st[%d];' % (st, k, k) for k in range(4))
    for L, x in enumerate(cut):
        a, b = rng(x); inner = x['inner']
        if x['kind'] == 'ForStmt':
            init, var, cond, inc, bd = (inner + [None] * 5)[:5]
            if var and var.get('kind'): raise No('condition variable')
        else:
            if len(inner) != 2: raise No('condition variable')
            init, inc = None, None; cond, bd = inner
        if not cond or not cond.get('kind'): raise No('no condition')
        if init and init.get('kind') == 'DeclStmt': raise No('loop variable declared in the loop')
        asg = assigned(x); local = {y['id'] for y in nodes(bd) if y['kind'] == 'VarDecl'}
        if assigned(cond): raise No('condition with side effects')
        mod = {k: r for k, r in asg.items() if k not in local}
        if any(k in {p['id'] for p in params} for k in mod): raise No('a parameter is assigned')
        ints = [r['name'] for k, r in mod.items() if ty(r) in ('int', 'unsigned int') and k != jid]
        if len(ints) != 1 or jid not in mod: raise No('index variables')
        i = ints[0]
        hv = ''
        for r in mod.values():
            if r['name'] == st: hv += ''.join('%s[%d] = nondet_U();' % (st, k) for k in range(4))
            elif ty(r) == 'int': hv += '%s = nondet_int();' % r['name']
            elif ty(r) in ('unsigned int',): hv += '%s = (unsigned)nondet_int();' % r['name']
            elif ty(r) in ('unsigned long', 'uint64_t', 'unsigned long long'): hv += '%s = nondet_U();' % r['name']
            else: raise No('type of ' + r['name'])
        keyed = any((ref(y) or {}).get('id') == params[1]['id'] for y in nodes(bd))
        capped = any((ref(y) or {}).get('id') == params[2]['id'] for y in nodes(cond))
        extra = '%s <= %s' % (j, n) if keyed and capped and len(cut) > 1 else '%s >= %s' % (j, n) if not keyed else '1'
        INV = '(0 <= %s && %s <= CNT(%s) && %s && %s == ((1 + %s) & 3) && g_j == %s && %s)' % (j, j, n, extra, i, j, j, EQ)
        t = ('g_start(%s, %s->mat1, %s->mat2, %s->tmat);\n' % (n, rn, rn, rn) if L == 0 else '')
        t = '{ ' + t + T(init) + ';\n__CPROVER_assert(%s, "invariant of loop %d holds at entry");\n%s g_havoc();\n__CPROVER_assume(%s);\n' % (INV, L + 1, hv, INV)
        if place == L:
            t += '__CPROVER_assume(%s);\n{ int g_v = CNT(%s) - %s; __CPROVER_assume(%s == %d); %s = %d; %s GHOST(%s, %s, %d);\n%s\n%s;\n__CPROVER_assert(%s, "invariant of loop %d is kept"); __CPROVER_assert(g_v > CNT(%s) - %s && g_v > 0, "loop %d ends"); }\n__CPROVER_assume(0); }\n' % (T(cond), n, j, i, case, i, case, SYNC, key, n, case, T(bd) + ('' if bd['kind'] == 'CompoundStmt' else ';'), T(inc), INV, L + 1, n, j, L + 1)
        else: t += '__CPROVER_assume(!(%s)); }\n' % T(cond)
        if text[b:b + 1] == b';' and bd['kind'] != 'CompoundStmt': b += 1
        ins.append((a, b, t))
    la = rng(last)[0]
    if place == len(cut): ins.append((la, la, '__CPROVER_assume(%s == %d); %s = %d; %s g_final(%d);\n' % (i, case, i, case, SYNC, case)))
    else: ins.append((la, la, '__CPROVER_assume(0);\n'))
    for a, b, t in sorted(ins, reverse=True): text = text[:a] + t.encode('latin1') + text[b:]
    return text.decode('latin1'), len(cut)
