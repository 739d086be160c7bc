"""Front end: runs clang on the current /repo sources and indexes the JSON AST.

Nothing is rewritten: the executor walks the AST clang produced from the very
source text that is compiled.  System headers are replaced by the declarations
in /verif/stubs (semantics given by vcg/lib.py or by the loops in the stubs)."""
import json, os, re, subprocess, concurrent.futures as cf

STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'stubs')

class ExtractError(Exception):
    pass

# ---------------------------------------------------------------- types
class T:
    """kind: void bool int real ptr ref arr cls enum func ; plus args"""
    __slots__ = ('kind', 'name', 'bits', 'signed', 'sub', 'n', 'args', 'const')
    def __init__(s, kind, name='', bits=0, signed=True, sub=None, n=None, args=(), const=False):
        s.kind, s.name, s.bits, s.signed, s.sub, s.n, s.args, s.const = kind, name, bits, signed, sub, n, tuple(args), const
    def __repr__(s):
        k = s.kind
        if k == 'ptr': return repr(s.sub) + '*'
        if k == 'ref': return repr(s.sub) + '&'
        if k == 'arr': return '%r[%s]' % (s.sub, s.n)
        if k == 'cls' and s.args: return '%s<%s>' % (s.name, ','.join(map(repr, s.args)))
        return s.name or k
    def __eq__(s, o): return isinstance(o, T) and repr(s) == repr(o)
    def __hash__(s): return hash(repr(s))

PRIM = {'void': T('void', 'void'), 'bool': T('bool', 'bool', 8, False),
        'char': T('int', 'char', 8, True), 'signed char': T('int', 'signed char', 8, True), 'unsigned char': T('int', 'unsigned char', 8, False),
        'short': T('int', 'short', 16, True), 'unsigned short': T('int', 'unsigned short', 16, False),
        'int': T('int', 'int', 32, True), 'unsigned int': T('int', 'unsigned int', 32, False), 'unsigned': T('int', 'unsigned int', 32, False),
        'long': T('int', 'long', 64, True), 'unsigned long': T('int', 'unsigned long', 64, False),
        'long long': T('int', 'long long', 64, True), 'unsigned long long': T('int', 'unsigned long long', 64, False),
        'double': T('real', 'double'), 'long double': T('real', 'long double'), 'float': T('real', 'float'),
        'std::nullptr_t': T('ptr', 'nullptr_t', sub=T('void', 'void')), 'nullptr_t': T('ptr', 'nullptr_t', sub=T('void', 'void'))}
for _a, _t in (('size_t', 'unsigned long'), ('ptrdiff_t', 'long'), ('ssize_t', 'long'), ('int64_t', 'long'), ('uint64_t', 'unsigned long'),
               ('int32_t', 'int'), ('uint32_t', 'unsigned int'), ('time_t', 'long'), ('streamsize', 'long'), ('iostate', 'int'), ('FLOAT', 'long double'),
               ('uint8_t', 'unsigned char'), ('int8_t', 'signed char'), ('clock_t', 'long')):
    PRIM[_a] = PRIM[_t]

def split_top(s, sep=','):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == sep and d == 0:
            out.append(cur); cur = ''
        else:
            cur += ch
    if cur.strip(): out.append(cur)
    return out

class TypeParser:
    def __init__(self):
        self.cache = {}
        self.typedefs = {}
        self.enums = set()
        self.classes = {}
    def parse(self, s):
        if s in self.cache: return self.cache[s]
        r = self._parse(s.strip())
        self.cache[s] = r
        return r
    def _parse(self, s):
        s = re.sub(r'\b(__restrict__|__restrict|restrict|volatile|struct|class|enum|union|typename)\b', ' ', s).strip()
        s = re.sub(r'\s+', ' ', s)
        if s.endswith('&&'): return T('ref', sub=self._parse(s[:-2].strip()))
        if s.endswith('&'): return T('ref', sub=self._parse(s[:-1].strip()))
        if s.endswith('*'): return T('ptr', sub=self._parse(s[:-1].strip()))
        if s.endswith('*const'): return T('ptr', sub=self._parse(s[:-6].strip()))
        if s.endswith('* const'): return T('ptr', sub=self._parse(s[:-7].strip()))
        m = re.match(r'^(.*?)\s*\[(\d*)\]$', s)
        if m:
            # innermost first: 'double[2][3]'
            mm = re.match(r'^([^\[]*?)\s*((?:\[\d*\])+)$', s)
            t = self._parse(mm.group(1)); dims = re.findall(r'\[(\d*)\]', mm.group(2))
            for d in reversed(dims): t = T('arr', sub=t, n=int(d) if d else None)
            return t
        m = re.match(r'^(?:const )?(\(lambda at [^()]*\))(?: const)?$', s)
        if m: return T('cls', m.group(1))
        if s.endswith(')'):
            m = re.match(r'^(.*)\(\*\)\[(\d+)\]$', s)
            # function or pointer to function
            return T('func', s)
        if re.search(r'\(\*\)', s) or s.endswith(') const') or s.endswith('noexcept'): return T('func', s)
        const = False
        if s.startswith('const '): s = s[6:].strip(); const = True
        if s.endswith(' const'): s = s[:-6].strip(); const = True
        if s in PRIM: return PRIM[s]
        if '<' in s:
            i = s.index('<')
            base = s[:i].split('::')[-1].strip()
            j = s.rindex('>')
            rest = s[j+1:].strip()
            args = []
            for a in split_top(s[i+1:j]):
                a = a.strip()
                if re.match(r'^-?\d+$', a): args.append(T('const', a))
                else: args.append(self._parse(a))
            if rest.startswith('::'):
                return self.lookup(rest[2:].split('::')[-1])
            return T('cls', base, args=args)
        name = s.split('::')[-1]
        if s.startswith('(anonymous') or s.startswith('(unnamed') or s.startswith('(lambda'): name = s
        return self.lookup(name)
    def lookup(self, name):
        if name in PRIM: return PRIM[name]
        if name in self.enums: return T('int', name, 32, False)
        if name in self.typedefs:
            return self.parse(self.typedefs[name])
        return T('cls', name)

class Func:
    __slots__ = ('name', 'qual', 'mangled', 'params', 'ret', 'body', 'kind', 'cls', 'node', 'tu', 'file', 'static', 'inits', 'is_stub', 'loc', 'virtual', 'const', 'dup')
    def __repr__(s): return '<Func %s>' % s.qual

class Cls:
    def __init__(s, name):
        s.name = name; s.fields = []; s.bases = []; s.ctors = []; s.dtor = None; s.methods = []; s.static_consts = {}; s.is_stub = False; s.is_union = False; s.args = (); s.lambda_call = None

def tystr(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''

class Program:
    def __init__(self, repo='/repo', files=None, extra_defs=()):
        self.repo = repo
        self.tp = TypeParser()
        self.funcs_by_id = {}      # (tu,id) -> Func (may lack body)
        self.defs = {}             # (tu or None, mangled) -> Func with body
        self.classes = {}          # repr(T) -> Cls
        self.vars = {}             # (tu,id) -> VarDecl node   (globals / static members)
        self.enumconst = {}        # (tu,id) -> int
        self.all_funcs = []
        self.tus = files or sorted(f for f in os.listdir(os.path.join(repo, 'src')) if f.endswith('.cc'))
        asts = {}
        with cf.ThreadPoolExecutor(8) as ex:
            for f, a in zip(self.tus, ex.map(self._clang, self.tus)):
                asts[f] = a
        self.asts = asts
        for f in self.tus:
            self._pre(asts[f])
        for f in self.tus:
            self._index(f, asts[f])
        # functions of the same name and parameters in different files (main, static helpers)
        seen = {}
        for f in self.all_funcs:
            if not f.is_stub: seen.setdefault((f.qual, tuple(tystr(p) for p in f.params)), []).append(f)
        for fs in seen.values():
            d = len({x.file for x in fs if x.cls is None}) > 1
            for f in fs: f.dup = d and f.cls is None

    def _clang(self, f):
        cmd = ['clang-18', '-x', 'c++', '-std=c++11', '-nostdinc', '-nostdinc++', '-I' + STUBS, '-include', '__all.h', '-D_VERIF_VCG',
               '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', f]
        cmd.remove('-D_VERIF_VCG')
        p = subprocess.run(cmd, cwd=os.path.join(self.repo, 'src'), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise ExtractError('clang cannot parse %s against the stub headers:\n%s' % (f, p.stderr.decode()[:2000]))
        return json.loads(p.stdout)

    # typedef and enum names first
    def _pre(self, n):
        stack = [n]
        while stack:
            x = stack.pop()
            k = x.get('kind')
            if k in ('TypedefDecl', 'TypeAliasDecl'):
                t = x.get('type', {})
                d = t.get('desugaredQualType') or t.get('qualType')
                q = t.get('qualType')
                nm = x.get('name')
                if nm not in PRIM and nm not in ('iterator', 'const_iterator', 'value_type', 'type', 'first_type', 'second_type', 'size_type', 'difference_type'):
                    dd = re.sub(r'\b(struct|class|union)\b', '', d).strip()
                    if dd != nm: self.tp.typedefs[nm] = d
            elif k == 'EnumDecl' and x.get('name'):
                self.tp.enums.add(x['name'])
            if k in ('TranslationUnitDecl', 'NamespaceDecl', 'LinkageSpecDecl', 'CXXRecordDecl', 'ClassTemplateDecl', 'ClassTemplateSpecializationDecl'):
                stack.extend(c for c in x.get('inner', []) if c)
            elif k in ('FunctionDecl', 'CXXMethodDecl', 'CompoundStmt', 'DeclStmt'):
                # local typedefs/enums
                stack.extend(c for c in x.get('inner', []) if c and c.get('kind') in ('CompoundStmt', 'DeclStmt', 'TypedefDecl', 'EnumDecl'))

    def ty(self, n):
        s = tystr(n)
        return self.tp.parse(s)

    def _index(self, tu, root):
        file_state = {'file': ''}
        def note_file(n):
            for key in ('loc',):
                l = n.get(key) or {}
                for cand in (l, l.get('expansionLoc') or {}, l.get('spellingLoc') or {}):
                    if cand.get('file'): file_state['file'] = cand['file']
        def walk(n, ctx, clsname, clsobj):
            k = n.get('kind')
            note_file(n)
            if k in ('TranslationUnitDecl', 'LinkageSpecDecl'):
                for c in n.get('inner', []):
                    if c: walk(c, ctx, clsname, clsobj)
            elif k == 'NamespaceDecl':
                for c in n.get('inner', []):
                    if c: walk(c, ctx + [n.get('name', '')], clsname, clsobj)
            elif k in ('FunctionTemplateDecl',):
                # the instantiations are direct children (the pattern has dependent types)
                for i, c in enumerate(n.get('inner', [])):
                    if c and c.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                        if any(x and x.get('kind') == 'TemplateArgument' for x in c.get('inner', [])) :
                            walk(c, ctx, clsname, clsobj)
            elif k == 'ClassTemplateDecl':
                for c in n.get('inner', []):
                    if c and c.get('kind') == 'ClassTemplateSpecializationDecl':
                        walk(c, ctx, clsname, clsobj)
            elif k in ('CXXRecordDecl', 'RecordDecl', 'ClassTemplateSpecializationDecl'):
                self._cls(tu, n, ctx, walk, file_state)
            elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                self._func(tu, n, ctx, clsname, clsobj, file_state['file'], walk)
            elif k == 'VarDecl':
                self.vars[(tu, n['id'])] = n
                n['_ctx'] = ctx
            elif k == 'EnumDecl':
                self._enum(tu, n)
        walk(root, [], None, None)

    def _enum(self, tu, n):
        v = -1
        for c in n.get('inner', []):
            if c and c.get('kind') == 'EnumConstantDecl':
                val = None
                for e in c.get('inner', []):
                    val = self._constval(e)
                v = v + 1 if val is None else val
                self.enumconst[(tu, c['id'])] = v

    def _constval(self, e):
        if e.get('kind') == 'ConstantExpr' and 'value' in e: return int(e['value'])
        if e.get('kind') == 'IntegerLiteral': return int(e['value'])
        for c in e.get('inner', []):
            r = self._constval(c)
            if r is not None: return r
        return None

    def _cls(self, tu, n, ctx, walk, file_state):
        nm = n.get('name') or ('(anon %s)' % n.get('id'))
        args = []
        for c in n.get('inner', []) or []:
            if c and c.get('kind') == 'TemplateArgument' and n['kind'] == 'ClassTemplateSpecializationDecl':
                if 'type' in c: args.append(self.tp.parse((c['type'].get('desugaredQualType') or c['type']['qualType'])))
                elif 'value' in c: args.append(T('const', str(c['value'])))
        t = T('cls', nm, args=args)
        key = repr(t)
        if not n.get('completeDefinition') and not (n.get('inner') and any(c and c.get('kind') == 'FieldDecl' for c in n['inner'])):
            # still register ids of methods
            cl = self.classes.get(key) or Cls(key)
        else:
            cl = self.classes.get(key)
            if cl is None or not getattr(cl, 'complete', False):
                cl = Cls(key); cl.complete = True
                self.classes[key] = cl
                fresh = True
            else:
                fresh = False
        n['_cls'] = key
        fresh = not getattr(cl, 'filled', False)
        cl.args = args
        cl.is_union = n.get('tagUsed') == 'union'
        if fresh:
            for b in n.get('bases', []):
                cl.bases.append(self.tp.parse(b['type'].get('desugaredQualType') or b['type']['qualType']))
        is_lambda = bool((n.get('definitionData') or {}).get('isLambda'))
        for c in n.get('inner', []) or []:
            if not c: continue
            k = c.get('kind')
            if k == 'FieldDecl':
                if fresh:
                    init = None
                    if c.get('hasInClassInitializer'):
                        init = [x for x in c.get('inner', []) if x][-1]
                    cl.fields.append((c.get('name') or '', c, init, tu))
                self.vars[(tu, c['id'])] = c
            elif k == 'VarDecl':
                self.vars[(tu, c['id'])] = c; c['_ctx'] = ctx + [nm]
            elif k == 'IndirectFieldDecl':
                pass
            else:
                walk(c, ctx + [nm], key, cl)
        if n.get('completeDefinition'): cl.filled = True

    def _func(self, tu, n, ctx, clsname, clsobj, file, walk):
        f = Func(); f.dup = False
        f.name = n.get('name', ''); f.mangled = n.get('mangledName') or ('?%s' % n['id']); f.tu = tu; f.node = n
        f.kind = n['kind']; f.file = file; f.static = n.get('storageClass') == 'static'
        f.params = []; f.body = None; f.inits = []
        f.virtual = bool(n.get('virtual'))
        f.loc = (n.get('loc') or {}).get('line')
        if clsname is None and n.get('parentDeclContextId'):
            prev = self.funcs_by_id.get((tu, n.get('previousDecl')))
            if prev is not None and prev.cls: clsname = prev.cls
        f.cls = clsname
        f.qual = '::'.join([c for c in ctx if c] + [f.name]) if clsname is None else '%s::%s' % (clsname, f.name)
        ft = (n.get('type') or {}).get('qualType', '')
        f.const = ft.rstrip().endswith('const')
        dt = (n.get('type') or {}).get('desugaredQualType') or ft
        f.ret = dt
        for c in n.get('inner', []) or []:
            if not c: continue
            if c['kind'] == 'ParmVarDecl': f.params.append(c)
            elif c['kind'] == 'CompoundStmt': f.body = c
            elif c['kind'] == 'CXXCtorInitializer': f.inits.append(c)
            elif c['kind'] == 'CXXTryStmt': f.body = c
        f.is_stub = '/stubs/' in (file or '') or (file or '').startswith('__') or STUBS in (file or '')
        self.funcs_by_id[(tu, n['id'])] = f
        if clsobj is not None:
            if f.kind == 'CXXConstructorDecl' and not getattr(clsobj, 'filled', False): clsobj.ctors.append(f)
            elif f.kind == 'CXXDestructorDecl' and not getattr(clsobj, 'filled', False): clsobj.dtor = f
            elif not getattr(clsobj, 'filled', False): clsobj.methods.append(f)
        if f.body is not None:
            self.all_funcs.append(f)
            if f.static and clsname is None or f.mangled.startswith('_ZL') or 'GLOBAL__N' in f.mangled:
                self.defs[(tu, f.mangled)] = f
            else:
                self.defs.setdefault((None, f.mangled), f)
                self.defs[(tu, f.mangled)] = f
            # enums / statics / local classes inside the body are indexed lazily
            self._local(tu, f.body, ctx, walk)

    def _local(self, tu, n, ctx, walk):
        stack = [n]
        while stack:
            x = stack.pop()
            k = x.get('kind')
            if k in ('CXXRecordDecl', 'RecordDecl'):
                walk(x, ctx, None, None); continue
            if k == 'EnumDecl': self._enum(tu, x)
            for c in x.get('inner', []) or []:
                if c: stack.append(c)

    def resolve(self, tu, declid):
        f = self.funcs_by_id.get((tu, declid))
        if f is None: return None
        if f.body is not None: return f
        d = self.defs.get((tu, f.mangled)) or self.defs.get((None, f.mangled))
        return d or f

    def find(self, name, nparams=None, cls=None, tu=None, stub=False):
        """functions with a body and this (unqualified) name"""
        out = []
        seen = set()
        for f in self.all_funcs:
            if f.name == name and (nparams is None or len(f.params) == nparams) and (cls is None or f.cls == cls) and f.is_stub == stub:
                if tu and f.tu != tu: continue
                key = f.mangled if not f.mangled.startswith('_ZL') else (f.tu, f.mangled)
                if key in seen: continue
                seen.add(key); out.append(f)
        return out
