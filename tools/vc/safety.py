"""Safety contracts: verification conditions for "no null object is dereferenced, no index is out of its range, no
cast meets another class" for the C++ functions of /repo (JSON of tools/extract/cxxast.cpp), function by function.

Every function gets a contract: `requires` over its parameters, `ensures` over its result and reference parameters.
A caller is checked against the contract of what it calls.  The conditions are quantifier free over integers and
uninterpreted functions (the accessors of clang's AST are pure functions of their arguments); Z3 discharges them.
What clang's accessors promise is listed in contracts/c09.py (NONNULL ...)."""
import re, os, json, hashlib, z3
from functools import lru_cache
from .ctypes_ import parse, T, INTS

NPOS = 2**64 - 1
MAXLOOP = 6

# ---------------------------------------------------------------- names
@lru_cache(None)
def strip(n):
    """qualified name without template arguments"""
    n = n.replace('operator<<', 'operator\1\1').replace('operator<=', 'operator\1=').replace('operator->*', 'operator-\2*').replace('operator->', 'operator-\2').replace('operator>>', 'operator\2\2').replace('operator>=', 'operator\2=')
    n = re.sub(r'operator<(?=$|\()', 'operator\1', n)
    n = re.sub(r'operator>(?=$|\()', 'operator\2', n)
    out, d = '', 0
    for c in n:
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out += c
    return out.replace('\1', '<').replace('\2', '>')

SMART = {'std::unique_ptr', 'std::shared_ptr', 'llvm::IntrusiveRefCntPtr'}
OPTS = {'std::optional', 'clang::CustomizableOptional', 'llvm::ErrorOr', 'llvm::Expected'}
STRINGS = {'std::basic_string', 'std::basic_string_view', 'llvm::StringRef', 'llvm::SmallString', 'llvm::StringLiteral'}
SEQ = {'std::vector', 'llvm::SmallVector', 'llvm::SmallVectorImpl', 'llvm::SmallVectorTemplateCommon', 'llvm::SmallVectorTemplateBase', 'llvm::SmallVectorBase', 'llvm::ArrayRef', 'llvm::MutableArrayRef', 'std::array',
       'std::initializer_list', 'std::deque', 'std::list', 'std::stack', 'llvm::iterator_range', 'clang::TemplateArgumentList', 'clang::TemplateParameterList', 'llvm::json::Array', 'std::match_results', 'clang::DynTypedNodeList'}
ASSOC = {'std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::multimap', 'std::unordered_multimap', 'llvm::DenseMap', 'llvm::StringMap', 'llvm::SmallSet', 'llvm::SmallPtrSet', 'llvm::DenseSet', 'llvm::StringSet', 'llvm::DenseMapBase', 'llvm::json::Object', 'std::unordered_multiset', 'std::multiset'}
CONT = STRINGS | SEQ | ASSOC
UNSIGNED = {k for k, (b, s) in INTS.items() if not s} | {'size_t'}

def is_nullable(t):
    return t.is_ptr() or t.name in SMART or t.name in OPTS or t.name == 'clang::QualType'
def is_bool(t): return t.name == 'bool' and not t.is_ptr() and t.arr is None
def is_int(t): return not t.is_ptr() and t.name in INTS
def is_cont(t): return not t.is_ptr() and t.name in CONT
def is_iter(t): return ('iterator' in t.name.lower() or 'Iterator' in t.name) and t.name not in CONT
def valuelike(t): return is_nullable(t) or is_bool(t) or is_int(t) or is_cont(t) or is_iter(t)

I, B = z3.IntSort(), z3.BoolSort()
def sort(t): return B if is_bool(t) else I

class Val:
    __slots__ = ('e', 't', 'lv', 'cont', 'k', 'x')
    def __init__(s, e, t, lv=None, cont=None, k=None, x=None): s.e, s.t, s.lv, s.cont, s.k, s.x = e, t, lv, cont, k, x
    def w(s, **kw):
        v = Val(s.e, s.t, s.lv, s.cont, s.k, s.x)
        for k, x in kw.items(): setattr(v, k, x)
        return v

class St:
    __slots__ = ('env', 'pc', 'ver', 'alive')
    def __init__(s, env, pc, ver): s.env, s.pc, s.ver, s.alive = env, pc, ver, True
    def fork(s):
        r = St(dict(s.env), list(s.pc), dict(s.ver)); r.alive = s.alive; return r

class Obl:
    __slots__ = ('why', 'file', 'line', 'pc', 'cond', 'ok', 'kind', 'path', 'callee')
    def __init__(s, **k):
        for a, b in k.items(): setattr(s, a, b)

class Giveup(Exception): pass
RLIMIT = 20000000     # per query: deterministic, unlike a time limit

# ---------------------------------------------------------------- clang's class hierarchy (installed headers)
@lru_cache(None)
def lattice(inc):
    L = {}
    for f, suf, root in (('StmtNodes.inc', '', 'Stmt'), ('DeclNodes.inc', 'Decl', 'Decl'), ('TypeNodes.inc', 'Type', 'Type'), ('AttrList.inc', '', 'Attr')):
        p = f'{inc}/clang/AST/{f}'
        if not os.path.exists(p): continue
        for l in open(p):
            if l.lstrip().startswith('#'): continue
            m = re.search(r'\b\w+\((\w+), (\w+)\)', l)
            if m:
                a, b = m[1] + suf, m[2]
                if suf == 'Decl' and not b.endswith('Decl') and b != 'Decl': b += suf
                L[a] = b
    sup = {}
    for a in L:
        x, s = a, []
        while x in L: x = L[x]; s.append(x)
        sup[a] = s
    return sup

def root(n, want):
    """the variable or field whose value an lvalue expression is part of"""
    while isinstance(n, dict):
        k = n['k']
        if k == 'MemberExpr' and n.get('dk') == 'field':
            if want == 'field': return n['rec'] + '::' + n['n']
            if n.get('arrow'): return None
            n = n['e']
        elif k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr'): n = n['e']
        elif k == 'ArraySubscriptExpr': n = n['c'][0]
        elif k == 'UnaryOperator' and n['op'] in ('*', '&') and (want == 'field' or n['op'] == '&'): n = n['c'][0]
        elif k == 'UnaryOperator' and n['op'] in ('++', '--'): n = n['c'][0]
        elif k in ('BinaryOperator', 'CompoundAssignOperator') and (n['op'] == '=' or k[0] == 'C'): n = n['c'][0]
        elif k == 'CXXOperatorCallExpr' and n['op'] in ('[]', '*', '=', '+=', '<<') and n['args']: n = n['args'][0]
        elif k == 'CXXMemberCallExpr' and 'obj' in n and n.get('fn') and n['fn']['n'].split('::')[-1] in ('back', 'front', 'top', 'at', 'value', 'begin', 'end', 'rbegin', 'rend'): n = n['obj']
        elif k == 'DeclRefExpr': return n['id'] if want == 'var' else None
        elif k in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'ParenExpr', 'CXXBindTemporaryExpr') and n.get('c'): n = n['c'][0]
        else: return None
def fieldroot(n): return root(n, 'field')
def assigned(node):
    """ids of the variables a piece of code may change"""
    out = set()
    def add(n):
        r = root(n, 'var')
        if r is not None: out.add(r)
    def walk(n):
        if isinstance(n, list):
            for x in n: walk(x)
            return
        if not isinstance(n, dict): return
        k = n.get('k')
        if k in ('BinaryOperator', 'CompoundAssignOperator') and (n['op'] == '=' or k[0] == 'C'): add(n['c'][0])
        elif k == 'UnaryOperator' and n['op'] in ('++', '--', '&'): add(n['c'][0])
        elif k == 'VarDecl' and n.get('init') and parse(n['t']).ref == '&' and not parse(n['t']).const: add(n['init'])
        elif k == 'CXXForRangeStmt' and '&' in n['var']['t'] and not parse(n['var']['t']).const: add(n['range'])
        c = n.get('fn') if k != 'MemberExpr' else None
        args = n.get('args') or []
        if isinstance(c, dict):
            pt = c.get('pt', [])
            off = 1 if k == 'CXXOperatorCallExpr' and c.get('method') and not c.get('static') else 0
            if off and args and not c.get('const'): add(args[0])
            if k == 'CXXMemberCallExpr' and not c.get('const') and isinstance(n.get('obj'), dict) and not n.get('objptr'): add(n['obj'])
            for a, p in zip(args[off:], pt):
                p = parse(p)
                if p.ref in ('&', '&&') and not (p.const and not p.quals): add(a)
        elif args:
            for a in args: add(a)
        for x in n.values():
            if isinstance(x, (dict, list)): walk(x)
    walk(node)
    return {'vars': out}
def asg_fields(ex, node):
    w = ex.w
    cs, vs, asg = w.effects(ex.stack[-1], node)
    r = set(asg)
    for c in cs: r |= w.reach[c]
    for v in vs:
        for c in w.byname.get(v, ()): r |= w.reach[c]
    return r
_fv = {}
def consts(e):
    """names of the constants of a formula"""
    k = e.get_id()
    if k in _fv and _fv[k][0].eq(e): return _fv[k][1]
    if z3.is_app(e):
        if e.num_args() == 0: r = frozenset() if z3.is_int_value(e) or z3.is_true(e) or z3.is_false(e) else frozenset([e.decl().name()])
        else: r = frozenset().union(*[consts(c) for c in e.children()])
    else: r = frozenset(['?'])
    _fv[k] = (e, r)
    return r
def is_formal(n): return n in ('this', 'ret') or re.match(r'(p\d+_|out\d+$)', n) is not None
def is_global(n): return n.startswith(('lit_', 'g_', 'static_', 'fn_')) or n.startswith('ver_') and '!' not in n
def fvars(e): return [n for n in consts(e) if is_formal(n)]
def closed(e): return all(is_formal(n) or is_global(n) for n in consts(e))
def weight(e, cap=400):
    n, st = 0, [e]
    while st and n <= cap:
        x = st.pop(); n += 1; st.extend(x.children())
    return n

class World:
    """all dumped functions, records; the tables of contracts/c09.py; inferred contracts"""
    def __init__(self, dumps, tables, inc):
        self.tab = tables
        self.lat = lattice(inc)
        self.f = {}         # uid -> fn
        self.byid = {}      # (di, id) -> uid
        self.bykey = {}
        self.records = {}
        for di, d in enumerate(dumps):
            for f in d['functions']:
                uid = f'{f["key"]}@{os.path.basename(f["file"])}' + (f':{f["line"]}#{di}.{f["id"]}' if f.get('inst') else '')
                if f.get('inst'):
                    # the same instantiation in several units: keep one per content
                    h = hashlib.sha1(json.dumps([f['key'], f['rt'], [p['t'] for p in f['params']], noid(f['body'])]).encode()).hexdigest()[:10]
                    uid = f'{f["key"]}@{os.path.basename(f["file"])}#{h}'
                self.byid[(di, f['id'])] = uid
                if uid not in self.f:
                    f['di'] = di; f['uid'] = uid
                    self.f[uid] = f
                    if not f.get('inst'): self.bykey.setdefault(f['key'], uid)
            for k, r in d['records'].items(): self.records.setdefault(k, r)
        self.contract = {}
        self.calls = {}
        self.names = {}
        self.addr = set()
        self.scan()

    def callee(self, fn, c):
        """uid of a called function of /repo or None"""
        if c is None: return None
        if 'def' in c and (fn['di'], c['def']) in self.byid: return self.byid[(fn['di'], c['def'])]
        if not c.get('root'): return None
        return self.bykey.get(c['key'])

    def effects(self, f, node):
        """(functions called, virtual methods called, fields changed) by a piece of f"""
        cs, vs, asg = set(), set(), set()
        def walk(n):
            if isinstance(n, list):
                for x in n: walk(x)
                return
            if not isinstance(n, dict): return
            k = n.get('k')
            if k in ('BinaryOperator', 'CompoundAssignOperator') and (n['op'] == '=' or k[0] == 'C'):
                r = fieldroot(n['c'][0]); r and asg.add(r)
            if k == 'UnaryOperator' and n['op'] in ('++', '--', '&'):
                r = fieldroot(n['c'][0])
                if r: asg.add(r)
            if k == 'VarDecl' and n.get('init') and parse(n['t']).ref == '&' and not parse(n['t']).const:
                r = fieldroot(n['init']); r and asg.add(r)
            if k == 'CXXForRangeStmt' and parse(n['var']['t']).ref == '&' and not parse(n['var']['t']).const:
                r = fieldroot(n['range']); r and asg.add(r)
            c = n.get('fn') if k != 'MemberExpr' else None
            if isinstance(c, dict):
                u = self.callee(f, c)
                if u: cs.add(u)
                if c.get('virtual') and c.get('root'): vs.add(c['n'])
                args = n.get('args') or []
                pt = c.get('pt', [])
                off = 1 if k == 'CXXOperatorCallExpr' and c.get('method') and not c.get('static') else 0
                if off and args and not c.get('const'):
                    r = fieldroot(args[0]); r and asg.add(r)
                if k == 'CXXMemberCallExpr' and not c.get('const') and isinstance(n.get('obj'), dict) and not n.get('objptr'):
                    nm = c['n'].split('::')[-1]
                    if nm not in ('begin', 'end', 'rbegin', 'rend', 'find', 'front', 'back', 'at', 'data', 'get', 'size', 'empty', 'getManager'):
                        r = fieldroot(n['obj']); r and asg.add(r)
                for a, p in zip(args[off:], pt):
                    p = parse(p)
                    if p.ref == '&' and not (p.const and not p.quals):
                        r = fieldroot(a); r and asg.add(r)
            for x in n.values():
                if isinstance(x, (dict, list)): walk(x)
        walk(node)
        return cs, vs, asg
    def scan(self):
        direct = {}
        for uid, f in self.f.items():
            cs, vs, asg = self.effects(f, f.get('body'))
            a, b, d = self.effects(f, f.get('inits'))
            cs |= a; vs |= b; asg |= d
            self.calls[uid] = (cs, vs); direct[uid] = asg
        # a virtual method and what overrides it
        def ups(r, seen):
            if r in seen: return
            seen.add(r)
            for b in self.records.get(r, {}).get('bases', ()): ups(parse(b).name, seen)
        byname = {}
        for uid, f in self.f.items():
            if f.get('method') and f.get('rec'):
                seen = set(); ups(f['rec'], seen)
                for r in seen: byname.setdefault(r + '::' + f['n'].split('::')[-1], []).append(uid)
        self.mutable = {x for a in direct.values() for x in a}
        reach = {u: set(a) for u, a in direct.items()}
        ch = True
        while ch:
            ch = False
            for u, (cs, vs) in self.calls.items():
                s = reach[u]; n0 = len(s)
                for c in cs: s |= reach[c]
                for v in vs:
                    for c in byname.get(v, ()): s |= reach[c]
                if len(s) != n0: ch = True
        self.reach = reach
        self.vernames = {'ver_' + sane(f): f for f in self.mutable}
        self.byname = byname
        self.callers = {}
        for u, (cs, vs) in self.calls.items():
            for c in cs: self.callers.setdefault(c, set()).add(u)

    def order(self):
        """strongly connected components, callees first"""
        import sys
        sys.setrecursionlimit(20000)
        idx, low, st, on, out, n = {}, {}, [], set(), [], [0]
        def go(u):
            idx[u] = low[u] = n[0]; n[0] += 1; st.append(u); on.add(u)
            for v in sorted(self.calls[u][0]):
                if v not in self.calls: continue
                if v not in idx: go(v); low[u] = min(low[u], low[v])
                elif v in on: low[u] = min(low[u], idx[v])
            if low[u] == idx[u]:
                c = []
                while True:
                    v = st.pop(); on.discard(v); c.append(v)
                    if v == u: break
                out.append(c)
        for u in sorted(self.f):
            if u not in idx: go(u)
        return out

def noid(n):
    if isinstance(n, list): return [noid(x) for x in n]
    if isinstance(n, dict): return {k: noid(v) for k, v in n.items() if k not in ('id', 'def', 'opid', 'l')}
    return n

class Contract:
    """requires/ensures: z3 formulas over the constants of formal()"""
    def __init__(s): s.req, s.ens, s.pure, s.status = [], [], False, 'new'

def formal(fn, i): return z3.Const(f'p{i}_{sane(fn["params"][i]["n"])}', sort(parse(fn['params'][i]['t']).noref()) if not outptr(parse(fn['params'][i]['t'])) else I)
def formal_this(): return z3.Int('this')
def formal_ret(fn): return z3.Const('ret', sort(parse(fn['rt']).noref()))
def formal_out(fn, i):
    t = parse(fn['params'][i]['t'])
    t = t.pointee() if outptr(t) else t.noref()
    return z3.Const(f'out{i}', sort(t))
def sane(s): return re.sub(r'\W', '_', s)
def outptr(t):
    """T** or pointer to a scalar: an out parameter"""
    if t.ref or not t.is_ptr() or t.arr is not None: return False
    if t.name == 'char': return False
    p = t.pointee()
    return (len(t.quals) >= 2 or is_bool(p) or is_int(p) or is_cont(p) or p.name == 'clang::QualType') and not (t.const and len(t.quals) == 1)
def outref(t): return t.ref == '&' and not (t.const and not t.quals) and valuelike(t.noref())

# ---------------------------------------------------------------- symbolic execution of one function
def b2i(e): return z3.If(e, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(e) else e

class Ex:
    def __init__(self, w, fn, nonnull_params=None):
        self.w, self.fn, self.tab = w, fn, w.tab
        self.solver = z3.Solver(); self.solver.set('rlimit', RLIMIT); self.solver.set('timeout', 60000)
        self.facts = []
        self.obls = []
        self.atoms = {}
        self.n = 0
        self.deadline = None
        self.reg = set(); self.keep = []
        self.seen = set()
        self.isas = {}
        self.line = fn['line']
        self.file = fn['file']
        self.unchecked = set()
        self.loops = []
        self.record = True
        self.stack = [fn]
        self.rets = []
        self.queries = self.unknown = 0
        self.used = set()         # contracts used
        self.impure = False
        self.inlambda = 0
        self.lamseen, self.lamran, self.lamat = set(), set(), {}

    # ---- facts and fresh values
    def fact(self, f):
        if z3.is_true(f): return
        k = f.get_id()
        if k in self.seen: return
        self.seen.add(k); self.facts.append(f); self.solver.add(f)
    def uf(self, name, args, s=I):
        args = [b2i(a) for a in args]
        return z3.Function(name, *([I] * len(args)), s)(*args) if args else z3.Const(name, s)
    def size(self, c):
        e = self.uf('size', [c]); self.fact(e >= 0); return e
    def allnn(self, c): return self.uf('allnn', [c], B)
    def fresh(self, t, nm='v', like=None):
        self.n += 1
        e = z3.Const(f'{nm}!{self.n}', sort(t))
        self.typed(e, t)
        return e
    def typed(self, e, t):
        """what the type says"""
        if z3.is_bool(e): return
        if is_int(t) and t.name in UNSIGNED: self.fact(e >= 0)
        elif not is_nullable(t) and t.ref == '' and t.name in ('std::basic_string',) : self.fact(e != 0)
        elif not is_nullable(t) and not is_int(t) and not is_iter(t) and t.name not in CONT and t.name in self.w.records: self.fact(e != 0)
    def elem(self, c, i):
        e = self.uf('elem', [c, i])
        self.fact(z3.Implies(z3.And(self.allnn(c), i >= 0, i < self.size(c)), e != 0))
        return e
    def empty(self, t):
        e = self.fresh(t, 'empty'); self.fact(self.size(e) == 0); self.fact(self.allnn(e)); return e
    def lit(self, bs):
        h = hashlib.sha1(bytes(b & 255 for b in bs)).hexdigest()[:8]
        e = z3.Int('lit_' + ''.join(chr(b) if 32 < b < 127 and chr(b).isalnum() else '_' for b in bs)[:20] + '_' + h)
        self.fact(e != 0); self.fact(self.size(e) == len(bs))
        return e
    def isa(self, cls, x, t=None):
        """isa<cls>(x)"""
        cls = cls.split('::')[-1]
        e = self.uf('isa_' + cls, [x], B)
        L = self.w.lat
        k = x.get_id()
        d = self.isas.setdefault(k, {})
        if t is not None:
            s = t.name.split('::')[-1]
            if s in L and s not in d and s not in ('Stmt', 'Decl', 'Type', 'Attr'):
                d[s] = 1
                self.fact(z3.Implies(x != 0, self.uf('isa_' + s, [x], B)))
                for o in d: self.rel(x, s, o)
        if cls not in d:
            d[cls] = 1
            for o in d: self.rel(x, cls, o)
        return e
    def rel(self, x, a, b):
        L = self.w.lat
        if a == b: return
        A, Bb = self.uf('isa_' + a, [x], B), self.uf('isa_' + b, [x], B)
        if b in L.get(a, ()): self.fact(z3.Implies(A, Bb))
        elif a in L.get(b, ()): self.fact(z3.Implies(Bb, A))
        elif a in L and b in L and 'DeclContext' not in (a, b): self.fact(z3.Not(z3.And(A, Bb)))

    # ---- path conditions
    def assume(self, st, c):
        if not z3.is_true(c): st.pc.append(c)
    def sat(self, pc, extra):
        self.queries += 1
        self.solver.push()
        for p in pc: self.solver.add(p)
        for p in extra: self.solver.add(p)
        r = self.solver.check()
        if r == z3.unknown:
            self.unknown += 1
        self.solver.pop()
        return r
    def prove(self, pc, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        return self.sat(pc, [z3.Not(cond)]) == z3.unsat
    def need(self, st, cond, kind, why, callee=None):
        """an obligation"""
        if not st.alive: return
        if z3.is_true(z3.simplify(cond)): return
        if self.record:
            o = Obl(why=why, file=self.file, line=self.line, pc=list(st.pc), cond=cond, kind=kind, ok=None, path=[f['n'] for f in self.stack[1:]], callee=callee)
            o.ok = self.prove(o.pc, cond)
            self.obls.append(o)
        self.assume(st, cond)
    def nonnull(self, st, v, why): self.need(st, v.e != 0, 'null', why)
    def atom(self, e):
        if z3.is_bool(e) and not z3.is_true(e) and not z3.is_false(e): self.split(e)
    def split(self, e):
        if z3.is_not(e): return self.split(e.arg(0))
        if z3.is_and(e) or z3.is_or(e) or z3.is_implies(e):
            for c in e.children(): self.split(c)
            return
        if z3.is_app_of(e, z3.Z3_OP_ITE) and z3.is_bool(e):
            for c in e.children(): self.split(c)
            return
        self.atoms[e.get_id()] = e

    # ---- merging
    def merge(self, base, states):
        states = [s for s in states if s is not None and s.alive]
        if not states:
            r = base.fork(); r.alive = False; return r
        if len(states) == 1: return states[0]
        n = min(len(s.pc) for s in states)
        k = 0
        while k < n and all(s.pc[k].eq(states[0].pc[k]) for s in states): k += 1
        gs = [z3.And(*s.pc[k:]) if len(s.pc) > k else z3.BoolVal(True) for s in states]
        r = St({}, states[0].pc[:k], {})
        g = z3.simplify(z3.Or(*gs)) if all(len(s.pc) - k <= 2 for s in states) else z3.Or(*gs)
        # x and not x
        if not z3.is_true(g): r.pc.append(g)
        keys = set(states[0].env)
        for s in states[1:]: keys &= set(s.env)
        for v in keys:
            vs = [s.env[v] for s in states]
            a = vs[0]
            if all(x is a for x in vs): r.env[v] = a; continue
            if a.k == 'alias' or any(x.k in ('alias', 'lambda', 'fnref') for x in vs): 
                if a.k == 'alias': r.env[v] = a
                continue
            if a.e is None: continue
            e = vs[-1].e
            for x, gg in list(zip(vs, gs))[-2::-1]:
                if x.e is None or e is None: e = None; break
                if not x.e.eq(e): e = z3.If(gg, x.e, e)
            if e is None: continue
            cont = a.cont if all(x.cont is not None and a.cont is not None and x.cont.eq(a.cont) for x in vs) else None
            r.env[v] = Val(e, a.t, None, cont, a.k if all(x.k == a.k for x in vs) else None, a.x)
        for f in set().union(*[set(s.ver) for s in states]):
            vs = [self.version(s, f) for s in states]
            e = vs[-1]
            for x, gg in list(zip(vs, gs))[-2::-1]:
                if not x.eq(e): e = z3.If(gg, x, e)
            r.ver[f] = e
        return r

    # ---- memory
    def version(self, st, f):
        if f not in st.ver: st.ver[f] = z3.Int(f'ver_{sane(f)}')
        return st.ver[f]
    def field(self, st, obj, f, t):
        t = t.noref()
        if f in self.w.mutable:
            self.impure = True
            e = self.uf('fld_' + sane(f), [obj, self.version(st, f)], sort(t))
        else: e = self.uf('fld_' + sane(f), [obj], sort(t))
        self.w.names['fld_' + sane(f)] = (f, t)
        if f in self.tab.FIELD_NONNULL: self.fact(e != 0)
        if f in self.tab.FIELD_ALLNN: self.fact(self.allnn(e))
        self.typed(e, t)
        return e
    def bump(self, st, f):
        self.n += 1
        st.ver[f] = z3.Int(f'ver_{sane(f)}!{self.n}')
    def read(self, st, lv, t):
        k = lv[0]
        if k == 'var':
            v = st.env.get(lv[1])
            if v is None: return Val(self.fresh(t.noref()), t.noref(), lv)
            if v.k == 'alias': return self.read(st, v.x, t)
            return Val(v.e, v.t, lv, v.cont, v.k, v.x)
        if k == 'field':
            o, f, ft = lv[1], lv[2], lv[3]
            c = st.env.get(('cont', f, o.get_id()))
            return Val(self.field(st, o, f, ft), ft.noref(), lv)
        if k == 'elem':
            if is_bool(t): return Val(self.fresh(t), t, lv)
            c = lv[1]
            if lv[3]:
                v = self.read(st, lv[3], parse('int'))
                if v.e is not None and not z3.is_bool(v.e) and is_cont(v.t): c = v.e
            return Val(self.elem(c, lv[2]), t, lv)
        return Val(self.fresh(t.noref()), t.noref(), lv)
    def write(self, st, lv, v):
        if lv is None or lv[0] == 'none': return
        k = lv[0]
        if k == 'var':
            c = st.env.get(lv[1])
            if c is not None and c.k == 'alias': return self.write(st, c.x, v)
            t = c.t if c is not None else v.t
            st.env[lv[1]] = Val(self.conv(v, t), t, None, v.cont, v.k, v.x)
        elif k == 'field':
            o, f, ft = lv[1], lv[2], lv[3]
            if f in self.tab.FIELD_NONNULL: self.need(st, v.e != 0, 'field', f'{f} is never null')
            if f in self.tab.FIELD_ALLNN and v.e is not None: self.need(st, self.allnn(v.e), 'field', f'{f} has no null element')
            self.bump(st, f)
            if f in self.w.mutable and v.e is not None:
                e = self.uf('fld_' + sane(f), [o, self.version(st, f)], sort(ft.noref()))
                x = self.conv(v, ft)
                self.assume(st, e == x)
            if len(lv) > 4 and lv[4]: self.havoc(st, lv[4], parse('int'), keepsize=True)
        elif k == 'elem':
            c = lv[3]
            if c:
                # a container whose element is replaced: same size
                old = lv[1]
                cv = self.read(st, c, parse('int'))
                n = self.fresh(parse('int'), 'upd')
                self.fact(self.size(n) == self.size(old))
                if v.e is not None and not z3.is_bool(v.e):
                    self.fact(z3.Implies(z3.And(self.allnn(old), v.e != 0), self.allnn(n)))
                    self.fact(self.uf('elem', [n, lv[2]]) == v.e)
                self.write(st, c, Val(n, cv.t))
        elif k == 'opt':
            pass
    def havoc(self, st, lv, t, keepsize=False):
        if lv is None or lv[0] == 'none': return None
        if lv[0] == 'var':
            c = st.env.get(lv[1])
            if c is not None and c.k == 'alias': return self.havoc(st, c.x, t)
            if c is not None: t = c.t
        t = t.noref()
        v = Val(self.fresh(t, 'h'), t)
        self.write(st, lv, v)
        return v

    # ---- conversions
    def conv(self, v, t):
        """the term of v as a value of type t"""
        e = v.e
        if e is None: return self.fresh(t)
        if is_bool(t) and not z3.is_bool(e): return e != 0
        if not is_bool(t) and z3.is_bool(e): return b2i(e)
        return e
    def cond(self, v):
        if v.e is None: return self.fresh(parse('bool'))
        return v.e if z3.is_bool(v.e) else v.e != 0

    # ---- expressions
    def ev(self, st, n):
        old = self.line
        if n.get('l'): self.line = n['l'] if len(self.stack) == 1 or True else old
        try:
            h = getattr(self, 'e_' + n['k'], None)
            if h is None:
                self.unchecked.add('expression ' + n['k'])
                for c in n.get('c', []) or []:
                    if isinstance(c, dict) and ('t' in c): self.ev(st, c)
                t = parse(n['t']); return Val(self.fresh(t.noref()) if t.name != 'void' or t.is_ptr() else None, t)
            return h(st, n)
        finally: self.line = old
    def e_IntegerLiteral(self, st, n): return Val(z3.IntVal(int(n['v'])), parse(n['t']))
    e_CharacterLiteral = e_IntegerLiteral
    def e_CXXBoolLiteralExpr(self, st, n): return Val(z3.BoolVal(bool(n['v'])), parse('bool'))
    def e_CXXNullPtrLiteralExpr(self, st, n): return Val(z3.IntVal(0), parse(n['t']))
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr
    def e_ImplicitValueInitExpr(self, st, n): t = parse(n['t']); return Val(self.default(t), t)
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr
    def e_StringLiteral(self, st, n):
        return Val(self.lit(n.get('bytes', [])), parse('const char *'))
    def e_UserDefinedLiteral(self, st, n):
        c = n.get('c') or n.get('args') or []
        for x in c:
            if isinstance(x, dict) and x.get('k') in ('StringLiteral', 'ImplicitCastExpr'):
                v = self.ev(st, x)
                if v.t.name == 'char': return Val(v.e, parse(n['t']))
        return Val(self.fresh(parse(n['t'])), parse(n['t']))
    def e_UnaryExprOrTypeTraitExpr(self, st, n): return Val(z3.IntVal(int(n.get('v', '1'))), parse(n['t']))
    def e_DefaultArg(self, st, n): return self.ev(st, n['e'])
    def e_CXXThisExpr(self, st, n): return Val(st.env['this'].e, parse(n['t']), None, k=None)
    def default(self, t):
        t = t.noref()
        if is_bool(t): return z3.BoolVal(False)
        if is_nullable(t) or is_int(t): return z3.IntVal(0)
        if is_cont(t): return self.empty(t)
        return self.fresh(t)
    def e_DeclRefExpr(self, st, n):
        t = parse(n['t']); dk = n.get('dk')
        if dk == 'enum': return Val(z3.IntVal(int(n['v'])), t)
        if dk == 'fn': return Val(self.uf('fn_' + sane(n['fn']['n']), []), t, k='fnref', x=n['fn'])
        if dk in ('param', 'local', 'binding') or n['id'] in st.env:
            if n['id'] in st.env: return self.read(st, ('var', n['id']), t)
            self.unchecked.add('variable of an enclosing function')
            v = Val(self.fresh(t.noref()), t.noref()); return v
        if dk == 'static':
            if t.const: return Val(self.uf(f'static_{sane(n["n"])}_{n["id"]}', [], sort(t.noref())), t)
            self.impure = True
            return Val(self.fresh(t.noref()), t, ('none',))
        if dk == 'global':
            q = n.get('q', '')
            if q.endswith('::npos'): return Val(z3.IntVal(NPOS), t)
            if t.const or q.startswith('std::') or q.split('::')[-1] in self.tab.GLOBAL_NONNULL:
                e = self.uf('g_' + sane(q), [], sort(t.noref())); self.typed(e, t)
                if q.split('::')[-1] in self.tab.GLOBAL_NONNULL: self.fact(e != 0)
                return Val(e, t)
            self.impure = True
            return Val(self.fresh(t.noref()), t, ('none',))
        return Val(self.fresh(t.noref()), t)
    def e_MemberExpr(self, st, n):
        t = parse(n['t'])
        if n.get('dk') == 'global':
            if n['n'] == 'npos': return Val(z3.IntVal(NPOS), t)
            return Val(self.uf('g_' + sane(n.get('q', n['n'])), [], sort(t.noref())) if t.const else self.fresh(t.noref()), t)
        b = self.ev(st, n['e'])
        if b.k == 'fnref': return Val(self.fresh(t.noref()), t)
        if n.get('arrow'): b = self.deref(st, b, f'{n["n"]} of')
        f = n.get('rec', '?') + '::' + n['n']
        if n.get('dk') != 'field': return Val(self.fresh(t.noref()), t)
        if b.t.name in ('std::pair', 'std::tuple') or f.startswith('std::') or not self.infile(f):
            e = self.uf('fld_' + sane(strip(f)), [b.e], sort(t.noref())) if b.e is not None else self.fresh(t.noref())
            self.typed(e, t)
            if t.is_ptr() and t.name != 'char' and strip(f) in self.tab.FIELD_NONNULL: self.fact(e != 0)
            if b.lv is not None and b.lv[0] in ('var', 'field', 'elem'): return Val(e, t, ('none',))
            return Val(e, t, ('none',))
        lv = ('field', b.e, f, t)
        if b.lv is not None and b.lv[0] == 'var' and b.k != 'obj': pass
        return self.read(st, lv, t)
    def infile(self, f): return f.rsplit('::', 1)[0] in self.w.records
    def deref(self, st, v, why=''):
        """*v"""
        if v.cont is not None and not (v.t.name in SMART or v.t.name in OPTS):
            self.need(st, z3.And(v.e >= 0, v.e < self.size(v.cont)), 'range', 'the iterator points at an element')
            et = self.elemtype(v)
            e = self.elem(v.cont, v.e)
            return Val(e, et, ('elem', v.cont, v.e, v.x if isinstance(v.x, tuple) else None)) if not is_bool(et) else Val(self.fresh(et), et, ('none',))
        if v.k == 'itarrow': return Val(v.e, v.t.pointee() if v.t.is_ptr() else v.t, ('none',))
        if v.k == 'addrp': self.nonnull(st, v, f'{why} a pointer that is not null')
        if v.k in ('addr', 'addrp'): return self.read(st, v.x, v.t.pointee())
        t = v.t
        if t.name in OPTS and not t.is_ptr():
            self.need(st, v.e != 0, 'null', f'{why} an optional that has a value')
            et = t.args[0].noref() if t.args else parse('int')
            e = self.uf('optval', [v.e], sort(et)); self.typed(e, et)
            if not is_nullable(et) and not z3.is_bool(e) and not is_int(et): self.fact(e != 0)
            return Val(e, et, ('none',))
        if t.name in SMART and not t.is_ptr():
            self.need(st, v.e != 0, 'null', f'{why} a smart pointer that is not null')
            return Val(v.e, t.args[0])
        if t.name == 'clang::QualType' and not t.is_ptr():
            self.need(st, v.e != 0, 'null', f'{why} a type that is not null')
            return Val(self.typ(v.e), parse('clang::Type'))
        if t.is_ptr():
            self.nonnull(st, v, f'{why} a pointer that is not null')
            p = t.pointee()
            if is_bool(p) or is_nullable(p) or (is_int(p) and p.name != 'char'):
                return Val(self.fresh(p), p, ('none',))
            return Val(v.e, p, v.lv if v.k == 'objaddr' else None)
        if is_iter(t):
            self.unchecked.add('dereference of an iterator of unknown origin')
            return Val(self.fresh(parse('int'), 'it'), t.args[0] if t.args and not t.name.startswith('__gnu') else parse('int'), ('none',))
        return Val(v.e, t)
    def typ(self, q):
        e = self.uf('typ', [q]); self.fact((e != 0) == (q != 0)); return e
    def elemtype(self, v):
        t = v.t
        if t.is_ptr(): return t.pointee()
        if t.name == '__gnu_cxx::__normal_iterator': return t.args[0].pointee()
        if t.args: return t.args[-1] if 'CastIterator' not in t.name else parse('clang::Expr *')
        return parse('int')
    def e_UnaryOperator(self, st, n):
        op, t = n['op'], parse(n['t'])
        x = n['c'][0]
        if op == '!':
            v = self.ev(st, x); c = self.cond(v)
            return Val(z3.Not(c), parse('bool'))
        if op == '*':
            v = self.ev(st, x)
            if v.k == 'fnref': return v
            d = self.deref(st, v, 'dereference of')
            if v.cont is not None: return d.w(t=t if not is_bool(t) else d.t)
            if d.k is None and not d.t.is_ptr() and t.name: d = d.w(t=t)
            return d
        if op == '&':
            if x.get('k') == 'DeclRefExpr' and x.get('dk') == 'fn': return self.ev(st, x)
            v = self.ev(st, x)
            vt = v.t.noref()
            if v.lv is not None and outptr(t): 
                e = self.fresh(t, 'addr'); self.fact(e != 0)
                return Val(e, t, None, None, 'addr', v.lv)
            if v.e is not None and not z3.is_bool(v.e) and not is_nullable(vt) and not is_int(vt):
                e = v.e
                if x.get('k') == 'DeclRefExpr' or True: self.assume(st, e != 0)
                return Val(e, t, v.lv, None, 'objaddr')
            e = self.fresh(t, 'addr'); self.fact(e != 0)
            return Val(e, t)
        v = self.ev(st, x)
        if op in ('++', '--'):
            d = 1 if op == '++' else -1
            if z3.is_bool(v.e): return v
            ne = v.e + d if not v.t.is_ptr() or v.cont is not None else self.padd(v.e, z3.IntVal(d))
            if v.t.name in UNSIGNED and d < 0 and not v.t.is_ptr(): ne = z3.If(v.e >= 1, v.e - 1, z3.IntVal(2**64 - 1))
            nv = Val(ne, v.t, None, v.cont, v.k, v.x)
            self.write(st, v.lv, nv)
            return Val(ne if n.get('prefix') else v.e, v.t, v.lv if n.get('prefix') else None, v.cont, v.k, v.x)
        if op == '-': return Val(-b2i(v.e), t)
        if op == '+': return v
        return Val(self.uf('op~', [v.e]), t)
    def short(self, st, n, op):
        a = self.ev(st, n['c'][0]); ca = self.cond(a)
        self.atom(ca)
        s2 = st.fork(); s2.pc.append(ca if op == '&&' else z3.Not(ca))
        k = len(s2.pc)
        env0, ver0 = dict(s2.env), dict(s2.ver)
        b = self.ev(s2, n['c'][1]); cb = self.cond(b)
        s1 = st.fork(); s1.pc.append(z3.Not(ca) if op == '&&' else ca)
        changed = any(s2.env.get(i) is not v for i, v in env0.items()) or any(not s2.ver[f].eq(ver0.get(f, s2.ver[f])) for f in s2.ver)
        if changed:
            m = self.merge(st, [s2, s1])
            st.env, st.pc, st.ver = m.env, m.pc, m.ver
        else:
            if len(s2.pc) > k: st.pc.append(z3.Implies(s2.pc[k - 1], z3.And(*s2.pc[k:])))
            for f, e in s2.ver.items(): st.ver.setdefault(f, e)
        return Val(z3.And(ca, cb) if op == '&&' else z3.Or(ca, cb), parse('bool'))
    def arith(self, st, op, a, b, t):
        x, y = b2i(a.e), b2i(b.e)
        if op in ('<', '>', '<=', '>='): return Val({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op], parse('bool'))
        cont, xx = (a.cont, a.x) if a.cont is not None else (b.cont, b.x)
        if cont is None and op in '+-' and t.is_ptr():
            return Val(self.padd(x, y if op == '+' else -y) if a.t.is_ptr() or a.t.arr is not None else self.padd(y, x), t)
        if op == '+': return Val(x + y, t, None, cont, None, xx)
        if op == '-':
            if a.cont is not None and b.cont is not None: return Val(x - y, t)
            if t.name in UNSIGNED and a.cont is None: return Val(z3.If(x >= y, x - y, x - y + 2**64), t)
            return Val(x - y, t, None, a.cont, None, a.x)
        if op == '*':
            if z3.is_int_value(x) or z3.is_int_value(y): return Val(x * y, t)
        if op in ('/', '%'):
            if not t.name in ('double', 'float'): self.need(st, y != 0, 'div', 'the divisor is not 0')
            if z3.is_int_value(y) and y.as_long() > 0 and t.name in UNSIGNED: return Val(x / y if op == '/' else x % y, t)
        e = self.uf('op' + op, [x, y]); self.typed(e, t)
        return Val(e, t)
    def padd(self, p, i):
        """a pointer that is not null stays one when it moves within its array"""
        e = self.uf('padd', [p, i]); self.fact(z3.Implies(p != 0, e != 0)); return e
    def e_BinaryOperator(self, st, n):
        op, t = n['op'], parse(n['t'])
        if op in ('&&', '||'): return self.short(st, n, op)
        if op == '=':
            v = self.ev(st, n['c'][1]); l = self.ev(st, n['c'][0])
            self.write(st, l.lv, v)
            return Val(self.conv(v, l.t.noref()), l.t.noref(), l.lv, v.cont, v.k, v.x)
        if op == ',':
            self.ev(st, n['c'][0]); return self.ev(st, n['c'][1])
        a = self.ev(st, n['c'][0]); b = self.ev(st, n['c'][1])
        if a.e is None or b.e is None: return Val(self.fresh(t), t)
        if op in ('==', '!='):
            x, y = a.e, b.e
            if z3.is_bool(x) != z3.is_bool(y): x, y = b2i(x), b2i(y)
            e = x == y
            return Val(e if op == '==' else z3.Not(e), parse('bool'))
        return self.arith(st, op, a, b, t)
    def e_CompoundAssignOperator(self, st, n):
        b = self.ev(st, n['c'][1]); a = self.ev(st, n['c'][0])
        r = self.arith(st, n['op'][:-1], a, b, a.t.noref())
        if z3.is_bool(a.e): r = Val(self.fresh(parse('bool')), parse('bool'))
        self.write(st, a.lv, r)
        return Val(r.e, a.t.noref(), a.lv, r.cont)
    def branch(self, st, c):
        a, b = st.fork(), st.fork()
        a.pc.append(c); b.pc.append(z3.Not(c))
        sc = z3.simplify(c)
        if z3.is_false(sc): a.alive = False
        if z3.is_true(sc): b.alive = False
        return a, b
    def e_ConditionalOperator(self, st, n):
        t = parse(n['t'])
        c = self.cond(self.ev(st, n['c'][0])); self.atom(c)
        a, b = self.branch(st, c)
        va = self.ev(a, n['c'][1]); vb = self.ev(b, n['c'][2])
        m = self.merge(st, [a, b])
        st.env, st.pc, st.ver = m.env, m.pc, m.ver
        if t.name == 'void' and not t.is_ptr(): return Val(None, t)
        x, y = self.conv(va, t), self.conv(vb, t)
        e = x if x.eq(y) else z3.If(c, x, y)
        cont = va.cont if va.cont is not None and vb.cont is not None and va.cont.eq(vb.cont) else None
        return Val(e, t, None, cont)
    def cast(self, st, n):
        ck, t = n['ck'], parse(n['t'])
        v = self.ev(st, n['e'])
        if ck in ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'LValueBitCast', 'ArrayToPointerDecay', 'ToVoid'):
            if ck == 'ArrayToPointerDecay' and v.e is not None and not z3.is_bool(v.e): self.fact(v.e != 0) if not v.cont else None
            if v.k == 'alias': return v
            if ck == 'LValueToRValue': return v.w(lv=None, t=v.t.noref())
            return v
        if ck in ('UserDefinedConversion', 'ConstructorConversion'): return v.w(t=t if v.t.name != t.name or True else v.t) if v.cont is None else v
        if ck in ('PointerToBoolean', 'IntegralToBoolean', 'MemberPointerToBoolean'): return Val(self.cond(v), parse('bool'))
        if ck == 'NullToPointer': return Val(z3.IntVal(0), t)
        if ck == 'IntegralCast':
            e = b2i(v.e) if v.e is not None else self.fresh(t)
            if is_bool(t): return Val(e != 0, t)
            if t.name in UNSIGNED and v.t.name not in UNSIGNED and not z3.is_bool(v.e) and v.t.name in INTS and not z3.is_int_value(e):
                e = z3.If(e >= 0, e, e + 2**INTS[t.name][0])
            elif t.name in UNSIGNED and z3.is_int_value(e) and e.as_long() < 0: e = z3.IntVal(e.as_long() + 2**INTS[t.name][0])
            return Val(e, t, None, v.cont, None, v.x)
        if ck == 'BaseToDerived' and t.is_ptr(): return v.w(t=t)
        return v.w(t=t.noref() if not t.ref else t)
    e_ImplicitCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = cast
    def e_ArraySubscriptExpr(self, st, n):
        a = self.ev(st, n['c'][0]); i = self.ev(st, n['c'][1])
        t = parse(n['t'])
        if a.cont is not None:
            e = a.e + i.e
            self.need(st, z3.And(e >= 0, e < self.size(a.cont)), 'range', 'index in range')
            return Val(self.elem(a.cont, e), t, ('none',))
        if a.t.is_ptr() and not a.t.ref: self.nonnull(st, a, 'index into an array that is not null')
        self.unchecked.add('index into a plain array')
        return Val(self.fresh(t.noref()), t, ('none',))
    def e_InitListExpr(self, st, n):
        t = parse(n['t'])
        vs = [self.ev(st, c) for c in n.get('c', []) if isinstance(c, dict) and 't' in c]
        if t.arr is not None or t.name == 'std::initializer_list':
            e = self.fresh(t, 'arr'); self.fact(self.size(e) == len(vs))
            nn = [v.e != 0 for v in vs if v.e is not None and not z3.is_bool(v.e)]
            self.fact(self.allnn(e) == (z3.And(*nn) if nn else z3.BoolVal(True)))
            for k, v in enumerate(vs):
                if v.e is not None and not z3.is_bool(v.e): self.fact(self.uf('elem', [e, z3.IntVal(k)]) == v.e)
            return Val(e, t)
        if not vs: return Val(self.default(t), t)
        if len(vs) == 1 and (is_nullable(t) or is_int(t) or is_bool(t)): return vs[0]
        r = t.name
        e = self.fresh(t, 'agg')
        if r in self.w.records:
            fl = self.w.records[r]['fields']
            for f, v in zip(fl, vs):
                ft = parse(f['t']); q = r + '::' + f['n']
                if v.e is None or v.k in ('lambda', 'fnref'): continue
                x = self.field(st, e, q, ft) 
                self.assume(st, x == self.conv(v, ft))
        return Val(e, t)
    def e_CXXStdInitializerListExpr(self, st, n):
        v = self.ev(st, n['c'][0]); return v.w(t=parse(n['t']))
    def e_LambdaExpr(self, st, n): self.lamseen.add(self.line); self.lamat[id(n)] = self.line; return Val(self.fresh(parse('int'), 'lam'), parse(n['t']), None, None, 'lambda', n)
    def e_CXXNewExpr(self, st, n):
        if n.get('e'): self.ev(st, n['e'])
        t = parse(n['t']); e = self.fresh(t, 'new'); self.fact(e != 0); return Val(e, t)
    def e_CXXDeleteExpr(self, st, n):
        for c in n.get('c', []): self.ev(st, c)
        return Val(None, parse('void'))
    def e_CXXTemporaryObjectExpr(self, st, n): return self.construct(st, n)
    def e_CXXConstructExpr(self, st, n): return self.construct(st, n)
    def e_CXXInheritedCtorInitExpr(self, st, n): t = parse(n['t']); return Val(self.fresh(t), t)
    def construct(self, st, n):
        t = parse(n['t']).noref()
        c = n.get('fn') or {}
        args = n.get('args', [])
        vs = [self.ev(st, a) for a in args]
        nd = [(v, a) for v, a in zip(vs, args) if a.get('k') != 'DefaultArg']
        if n.get('copy') and vs:
            v = vs[0]
            return Val(v.e, t if v.cont is None else v.t.noref(), None, v.cont, v.k if v.k in ('lambda', 'fnref') else None, v.x if v.k in ('lambda', 'fnref') or v.cont is not None else None)
        nm = t.name
        if nm in STRINGS:
            if not nd: return Val(self.empty(t), t)
            v = nd[0][0]
            if len(nd) == 1 and v.e is not None and (v.t.name in STRINGS or (v.t.name == 'char' and (v.t.is_ptr() or v.t.arr is not None))):
                if v.t.is_ptr() and nm in ('std::basic_string', 'std::basic_string_view'): self.nonnull(st, v, 'a string made from a C string')
                return Val(v.e, t)
            if len(nd) == 2 and is_int(v.t) and not v.t.is_ptr():
                e = self.fresh(t, 'str'); self.fact(self.size(e) == v.e); return Val(e, t)
            if len(nd) >= 2 and v.t.is_ptr() and is_int(nd[1][0].t):
                e = self.fresh(t, 'str'); self.fact(z3.Implies(nd[1][0].e >= 0, self.size(e) == nd[1][0].e)); return Val(e, t)
            if len(nd) == 2 and v.cont is not None and nd[1][0].cont is not None:
                e = self.fresh(t, 'str'); self.fact(z3.Implies(nd[1][0].e >= v.e, self.size(e) == nd[1][0].e - v.e)); return Val(e, t)
            return Val(self.fresh(t, 'str'), t)
        if nm in CONT:
            if not nd: return Val(self.empty(t), t)
            v = nd[0][0]
            if len(nd) == 1 and v.e is not None and (v.t.name in SEQ or v.t.arr is not None) and not v.t.is_ptr():
                return Val(v.e, t)
            if nm in SEQ and v.e is not None and not z3.is_bool(v.e) and is_int(v.t) and 'allocator' not in v.t.name and t.args and not is_int(t.args[0]):
                e = self.fresh(t, 'vec'); self.fact(self.size(e) == v.e); return Val(e, t)
            return Val(self.fresh(t, 'cont'), t)
        if nm in OPTS and not t.is_ptr():
            if not nd: return Val(z3.IntVal(0), t)
            v = nd[0][0]
            if 'nullopt' in v.t.name: return Val(z3.IntVal(0), t)
            if v.t.name in OPTS: return Val(v.e, t)
            e = self.fresh(t, 'opt'); self.fact(e != 0)
            return Val(e, t)
        if nm in SMART:
            if not nd: return Val(z3.IntVal(0), t)
            return Val(nd[0][0].e, t)
        if nm == 'clang::QualType':
            if not nd: return Val(z3.IntVal(0), t)
            e = self.fresh(t, 'qt'); v = nd[0][0]
            if v.e is not None:
                self.fact((e != 0) == (v.e != 0)); self.fact(self.typ(e) == v.e)
            return Val(e, t)
        if is_iter(t) and nd: return nd[0][0].w(t=t)
        u = self.w.callee(self.fn if len(self.stack) == 1 else self.stack[-1], c)
        e = self.fresh(t, 'obj'); self.fact(e != 0)
        if u is not None and u in self.w.f:
            self.apply(st, u, c, vs, args, Val(e, t))
        else:
            self.lambdas(st, vs, None)
            self.outs(st, c.get('pt', []), vs)
        return Val(e, t)
    def outs(self, st, pts, vs):
        """arguments that a function without a contract may change"""
        r = False
        for p, v in zip(pts, vs):
            t = parse(p)
            if outref(t) and v.lv is not None: self.havoc(st, v.lv, t.noref()); r = True
            elif v.k in ('addr', 'addrp'): self.havoc(st, v.x, v.t.pointee()); r = True
            elif t.ref == '&' and not t.const and v.lv is not None and v.lv[0] == 'var': self.havoc(st, v.lv, t.noref()); r = True
            elif v.k == 'objaddr' and v.lv is not None and not t.const: self.havoc(st, v.lv, v.t.pointee()); r = True
        return r

    # ---- calls
    def e_CXXMemberCallExpr(self, st, n):
        c = n.get('fn')
        t = parse(n['t'])
        if not c:
            vs = [self.ev(st, a) for a in n.get('args', [])]
            self.unchecked.add('call through a pointer to member'); self.outs(st, [], vs)
            return self.result(st, t)
        o = self.ev(st, n['obj'])
        s = strip(c['n'])
        if n.get('objptr'):
            isthis = n['obj'].get('k') == 'CXXThisExpr' or (n['obj'].get('k') == 'ImplicitCastExpr' and n['obj'].get('e', {}).get('k') == 'CXXThisExpr')
            if not isthis: 
                if o.t.name == 'clang::QualType' and not o.t.is_ptr(): pass
                elif o.cont is not None: o = self.deref(st, o)
                else: self.nonnull(st, o, f'{s.split("::")[-1]}() is called on')
            if o.t.is_ptr(): o = o.w(t=o.t.pointee(), k=None if o.k != 'objaddr' else 'objaddr')
        vs = [self.ev(st, a) for a in n.get('args', [])]
        return self.method(st, n, c, s, o, vs, n.get('args', []))
    def e_CXXOperatorCallExpr(self, st, n):
        c = n.get('fn'); t = parse(n['t']); op = n['op']
        args = n.get('args', [])
        if not c:
            vs = [self.ev(st, a) for a in args]
            return self.result(st, t)
        if op == '()' and c.get('method'):
            o = self.ev(st, args[0])
            if o.k == 'lambda':
                vs = [self.ev(st, a) for a in args[1:]]
                return self.inline_lambda(st, o, vs, parse(n['t']))
            vs = [self.ev(st, a) for a in args[1:]]
            return self.method(st, n, c, strip(c['n']), o, vs, args[1:])
        if c.get('method'):
            if op == '=' :
                v = self.ev(st, args[1]); o = self.ev(st, args[0])
                return self.method(st, n, c, strip(c['n']), o, [v], args[1:])
            o = self.ev(st, args[0])
            vs = [self.ev(st, a) for a in args[1:]]
            return self.method(st, n, c, strip(c['n']), o, vs, args[1:])
        vs = [self.ev(st, a) for a in args]
        return self.free(st, n, c, strip(c['n']), vs, args)
    def e_CallExpr(self, st, n):
        c = n.get('fn'); t = parse(n['t'])
        args = n.get('args', [])
        if not c:
            f = self.ev(st, n['calleeE']) if isinstance(n.get('calleeE'), dict) and 't' in n['calleeE'] else None
            vs = [self.ev(st, a) for a in args]
            if f is not None and f.k == 'fnref': return self.free(st, n, f.x, strip(f.x['n']), vs, args)
            self.outs(st, [], vs)
            return self.result(st, t)
        vs = [self.ev(st, a) for a in args]
        return self.free(st, n, c, strip(c['n']), vs, args)
    def result(self, st, t, nm='r'):
        if t.name == 'void' and not t.is_ptr(): return Val(None, t)
        e = self.fresh(t.noref(), nm)
        return Val(e, t.noref(), ('none',) if t.ref == '&' and not t.const else None)
    def vals(self, vs): return [v.e for v in vs if v.e is not None and v.k not in ('lambda',)]
    def pure(self, st, name, vs, t, obj=None):
        """the result of an accessor"""
        if t.name == 'void' and not t.is_ptr(): return Val(None, t)
        t2 = t.noref()
        a = ([obj] if obj is not None else []) + self.vals(vs)
        e = self.uf('m_' + sane(name), a, sort(t2))
        self.w.names['m_' + sane(name)] = (name, t2)
        self.typed(e, t2)
        self.pfacts(name, a, e, t2)
        return Val(e, t2, ('none',) if t.ref == '&' and not t.const else None)
    def pfacts(self, name, a, e, t2):
        if not z3.is_bool(e):
            last = name.split('::')[-1]
            if name in self.tab.NONNULL or last in self.tab.NONNULL_ANY: self.fact(e != 0)
            if t2.name in CONT and not t2.is_ptr():
                if last in self.tab.NN_RANGES: self.fact(self.allnn(e))
                self.size(e)
        for f in self.tab.facts(self, name, a, e): self.fact(f)

    def method(self, st, n, c, s, o, vs, args):
        t = parse(c['rt']); nm = s.split('::')[-1]; cls = s[:-len(nm) - 2]
        w = self.w
        u = w.callee(self.stack[-1], c)
        if c.get('root') or u is not None:
            if c.get('virtual') and not c.get('def') or c.get('virtual'):
                return self.virtual(st, c, o, vs, args)
            if u is not None: return self.apply(st, u, c, vs, args, o)
            self.outs(st, c.get('pt', []), vs); self.impure = True
            return self.result(st, t)
        if o.k == 'lambda' and nm == 'operator()': return self.inline_lambda(st, o, vs, t)
        if s.startswith('std::ranges::__') and nm == 'operator()':
            r = self.algorithm(st, s, nm, vs, t, args)
            if r is not None: return r
        # ---- iterators
        ot = o.t.noref()
        if o.cont is not None or is_iter(ot):
            r = self.iter_method(st, nm, o, vs, t, c)
            if r is not None: return r
        if not ot.is_ptr():
            if ot.name in OPTS:
                r = self.opt_method(st, nm, o, vs, t)
                if r is not None: return r
            if ot.name in SMART or strip(ot.name) in SMART:
                r = self.smart_method(st, nm, o, vs, t)
                if r is not None: return r
            if cls == 'clang::QualType': return self.qualtype(st, nm, o, vs, t)
            if ot.name in CONT or cls in CONT:
                r = self.cont_method(st, nm, o, vs, t, args, c, cls)
                if r is not None: return r
        if nm == 'operator=' and vs:
            self.write(st, o.lv, vs[0]); return Val(o.e, ot, o.lv)
        if nm in ('operator==', 'operator!=') and vs and o.e is not None and vs[0].e is not None and not z3.is_bool(o.e) and not z3.is_bool(vs[0].e):
            e = o.e == vs[0].e; return Val(e if nm == 'operator==' else z3.Not(e), parse('bool'))
        self.lambdas(st, vs, None)
        r = self.tab.model(self, st, s, nm, cls, o, vs, t, c)
        if r is not None: return r
        changed = self.outs(st, c.get('pt', []), vs)
        q = self.range_of(st, nm, o)
        if q is not None: return q.w(t=t.noref() if q.cont is None else t.noref())
        if changed or (not c.get('const') and not c.get('static') and o.lv is not None and o.lv[0] in ('var', 'field') and not o.t.is_ptr() and nm not in self.tab.PURE):
            if not c.get('const') and o.lv is not None and nm not in self.tab.PURE: self.havoc(st, o.lv, ot)
            return self.result(st, t)
        return self.pure(st, s, vs, t, o.e)
    def range_of(self, st, nm, o):
        """X_begin / X_end / X() of an AST node"""
        a = self.tab.RANGES.get(nm)
        if a is None: return None
        rng, what = a
        c = self.uf('rng_' + rng, [o.e])
        n = self.size(c)
        if rng in self.tab.NN_RANGES: self.fact(self.allnn(c))
        for f in self.tab.facts(self, 'rng_' + rng, [o.e], c): self.fact(f)
        if what == 'begin': return Val(z3.IntVal(0), parse('int'), None, c)
        if what == 'end': return Val(n, parse('int'), None, c)
        if what == 'size': return Val(n, parse('unsigned int'))
        if what == 'empty': return Val(n == 0, parse('bool'))
        return Val(c, parse('llvm::iterator_range<int *>'))
    def iter_method(self, st, nm, o, vs, t, c):
        ot = o.t
        if nm in ('operator++', 'operator--'):
            ne = o.e + (1 if nm == 'operator++' else -1)
            self.write(st, o.lv, Val(ne, ot, None, o.cont, o.k, o.x))
            return Val(ne if not vs else o.e, ot, None, o.cont, None, o.x)
        if nm in ('operator*', 'operator->'):
            d = self.deref(st, o)
            if nm == 'operator->' and d.t.is_ptr() and 'iterator' not in d.t.name: pass
            if not t.ref and not t.is_ptr(): pass
            tt = t.noref() if nm == 'operator*' else t.pointee() if t.is_ptr() else d.t
            if nm == 'operator->': return Val(d.e if not z3.is_bool(d.e) else self.fresh(tt), parse(t.raw.replace('&', '').strip()), None, None, 'itarrow')
            if is_bool(tt): return Val(self.fresh(tt), tt, ('none',))
            return Val(b2i(d.e), tt, d.lv)
        if nm in ('operator+', 'operator-') and vs and vs[0].e is not None:
            return Val(o.e + vs[0].e if nm[-1] == '+' else o.e - vs[0].e, ot if vs[0].cont is None else t, None, o.cont if vs[0].cont is None else None, None, o.x)
        if nm in ('operator+=', 'operator-=') and vs:
            ne = o.e + vs[0].e if nm[-2] == '+' else o.e - vs[0].e
            self.write(st, o.lv, Val(ne, ot, None, o.cont, o.k, o.x)); return Val(ne, ot, o.lv, o.cont, None, o.x)
        if nm in ('operator==', 'operator!=') and vs:
            e = o.e == vs[0].e; return Val(e if nm == 'operator==' else z3.Not(e), parse('bool'))
        if nm == 'operator=' and vs:
            self.write(st, o.lv, vs[0]); return vs[0].w(t=ot, lv=o.lv)
        if nm == 'base': return o
        return None
    def opt_method(self, st, nm, o, vs, t):
        if nm in ('has_value', 'operator bool'): return Val(o.e != 0, parse('bool'))
        if nm in ('operator*', 'operator->', 'value', 'get'):
            if o.t.name == 'llvm::ErrorOr' and nm == 'get': pass
            d = self.deref(st, o)
            return d if nm != 'operator->' else Val(d.e, t, None, None, 'itarrow')
        if nm == 'operator=' and vs:
            v = vs[0]
            if v.t.name in OPTS: e = v.e
            elif 'nullopt' in v.t.name: e = z3.IntVal(0)
            else: e = self.fresh(o.t, 'opt'); self.fact(e != 0)
            self.write(st, o.lv, Val(e, o.t)); return Val(e, o.t, o.lv)
        if nm in ('reset',): self.write(st, o.lv, Val(z3.IntVal(0), o.t)); return Val(None, t)
        if nm in ('emplace',):
            e = self.fresh(o.t, 'opt'); self.fact(e != 0); self.write(st, o.lv, Val(e, o.t)); return self.result(st, t)
        if nm in ('value_or', 'takeError', 'getError'): return self.result(st, t)
        return None
    def smart_method(self, st, nm, o, vs, t):
        if nm in ('get',): return Val(o.e, t)
        if nm == 'operator bool': return Val(o.e != 0, parse('bool'))
        if nm in ('operator*', 'operator->'):
            d = self.deref(st, o)
            return d if nm == 'operator*' else Val(d.e, t, None, None, 'itarrow')
        if nm == 'reset':
            self.write(st, o.lv, vs[0] if vs and vs[0].e is not None else Val(z3.IntVal(0), o.t)); return Val(None, t)
        if nm == 'release':
            self.write(st, o.lv, Val(z3.IntVal(0), o.t)); return Val(o.e, t)
        if nm == 'operator=' and vs:
            self.write(st, o.lv, vs[0]); return Val(vs[0].e, o.t, o.lv)
        return None
    def qualtype(self, st, nm, o, vs, t):
        if nm == 'isNull': return Val(o.e == 0, parse('bool'))
        if nm == 'getTypePtrOrNull': return Val(self.typ(o.e), t)
        if nm in ('getTypePtr', 'operator->', 'operator*'):
            self.nonnull(st, o, f'QualType::{nm} is called on')
            return Val(self.typ(o.e), t if nm != 'operator*' else t.noref(), None)
        if nm == 'operator=':
            self.write(st, o.lv, vs[0]); return Val(vs[0].e, o.t, o.lv)
        if nm in ('operator==', 'operator!='):
            e = o.e == vs[0].e; return Val(e if nm == 'operator==' else z3.Not(e), parse('bool'))
        if nm not in self.tab.QT_NULL_OK: self.nonnull(st, o, f'QualType::{nm} is called on')
        r = self.pure(st, 'clang::QualType::' + nm, vs, t, o.e)
        if t.name == 'clang::QualType': self.fact((r.e != 0) == (o.e != 0))
        return r

    # containers are values: a change gives another value
    def setc(self, st, o, size=None, nn=None):
        ne = self.fresh(o.t.noref() if not o.t.is_ptr() else parse('int'), 'c')
        if size is not None: self.fact(self.size(ne) == size)
        else: self.size(ne)
        if nn is not None: self.fact(self.allnn(ne) == nn)
        self.write(st, o.lv, Val(ne, o.t))
        return ne
    def cont_method(self, st, nm, o, vs, t, args, c, cls):
        e = o.e
        ot = o.t.noref()
        isstr = ot.name in STRINGS or cls in STRINGS
        isassoc = ot.name in ASSOC or cls in ASSOC
        n = self.size(e)
        tru = z3.BoolVal(True)
        def it(i): return Val(i, t.noref(), None, e, None, o.lv)
        a0 = vs[0].e if vs else None
        nnv = (lambda v: v.e != 0 if v.e is not None and not z3.is_bool(v.e) else tru)
        nd = [v for v, a in zip(vs, args) if a.get('k') != 'DefaultArg']
        if nm in ('size', 'length', 'getNumArgs'): return Val(n, t)
        if nm in ('empty', 'isEmpty', 'none'): return Val(n == 0, parse('bool'))
        if nm in ('begin', 'cbegin', 'rbegin', 'crbegin'): return it(z3.IntVal(0))
        if nm in ('end', 'cend', 'rend', 'crend'): return it(n)
        if nm in ('front', 'back', 'top'):
            self.need(st, n > 0, 'range', f'{nm}() of a container that is not empty')
            i = z3.IntVal(0) if nm == 'front' else n - 1
            return self.el(e, i, t, o)
        if nm in ('operator[]', 'at', 'get', 'getParam') and not isassoc and a0 is not None and not z3.is_bool(a0):
            if ot.name == 'std::match_results': return self.result(st, t)
            ok = a0 <= n if isstr and ot.name == 'std::basic_string' and nm == 'operator[]' else a0 < n
            self.need(st, z3.And(a0 >= 0, ok), 'range', f'{nm} with an index in range')
            return self.el(e, a0, t, o)
        if isassoc and nm == 'operator[]':
            if is_cont(t.noref()) or is_nullable(t.noref()): r = self.fresh(t.noref(), 'mapval')
            else: r = self.fresh(t.noref(), 'mapval')
            self.setc_grow(st, o)
            return Val(r, t.noref(), ('none',))
        if isassoc and nm == 'at':
            self.need(st, self.uf('has', [e, a0], B), 'range', 'at() with a key of the map')
            r = self.uf('mapval', [e, a0], sort(t.noref())); self.typed(r, t.noref()); return Val(r, t.noref(), ('none',))
        if isassoc and nm in ('find', 'lower_bound', 'upper_bound'):
            i = self.fresh(parse('unsigned long'), 'it'); self.fact(i <= n)
            if nm == 'find' and a0 is not None and not z3.is_bool(a0): self.fact((i < n) == self.uf('has', [e, a0], B))
            return it(i)
        if isassoc and nm == 'contains' and a0 is not None: return Val(self.uf('has', [e, a0], B), parse('bool'))
        if isassoc and nm == 'count' and a0 is not None:
            return Val(z3.If(self.uf('has', [e, a0], B), z3.IntVal(1), z3.IntVal(0)), t)
        if nm in ('push_back', 'emplace_back', 'push', 'emplace', 'push_front', 'emplace_front') and not isassoc:
            ne = self.setc(st, o, n + 1, z3.And(self.allnn(e), nnv(vs[0]) if len(vs) == 1 else tru))
            if len(vs) == 1 and vs[0].e is not None and not z3.is_bool(vs[0].e) and nm not in ('push_front', 'emplace_front'): self.fact(self.uf('elem', [ne, n]) == vs[0].e)
            return self.result(st, t)
        if isassoc and nm in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            self.setc_grow(st, o); return self.result(st, t)
        if nm in ('pop_back', 'pop', 'pop_front'):
            self.need(st, n > 0, 'range', f'{nm}() of a container that is not empty')
            ne = self.setc(st, o, n - 1); self.fact(z3.Implies(self.allnn(e), self.allnn(ne)))
            return Val(None, t)
        if nm == 'clear': self.setc(st, o, z3.IntVal(0), tru); return Val(None, t)
        if nm in ('reserve', 'shrink_to_fit'): return Val(None, t)
        if nm == 'operator=':
            v = vs[0]
            if v.e is None or z3.is_bool(v.e) or is_int(v.t): self.setc(st, o); return Val(self.read(st, o.lv, ot).e if o.lv else e, ot, o.lv)
            self.write(st, o.lv, Val(v.e, ot)); return Val(v.e, ot, o.lv)
        if nm in ('operator+=', 'append'):
            v = vs[0]
            if is_cont(v.t) or (v.t.name == 'char' and (v.t.is_ptr() or v.t.arr is not None)):
                if v.t.is_ptr() and not v.t.arr: self.nonnull(st, v, 'a C string that is appended')
                ne = self.setc(st, o, n + self.size(v.e), z3.And(self.allnn(e), self.allnn(v.e))) if len(nd) == 1 else self.setc_grow(st, o)
            elif nm == 'operator+=' and is_int(v.t): ne = self.setc(st, o, n + 1)
            else: ne = self.setc_grow(st, o)
            return Val(ne, ot, o.lv)
        if nm in ('insert', 'resize', 'assign'):
            if nm == 'insert':
                ne = self.setc_grow(st, o)
                if isstr and is_int(vs[0].t) and vs[0].cont is None: self.need(st, vs[0].e <= n, 'range', 'insert() at a position in range')
                if len(vs) == 3 and vs[1].cont is not None: self.fact(z3.Implies(z3.And(self.allnn(e), self.allnn(vs[1].cont)), self.allnn(ne)))
                elif len(vs) == 2 and not isstr: self.fact(z3.Implies(z3.And(self.allnn(e), nnv(vs[1])), self.allnn(ne)))
            else: self.setc(st, o, vs[0].e if nm == 'resize' else None)
            return self.result(st, t)
        if nm == 'substr':
            if ot.name in ('std::basic_string', 'std::basic_string_view') or cls in ('std::basic_string', 'std::basic_string_view'): self.need(st, a0 <= n, 'range', 'substr() from a position in range')
            r = self.fresh(t, 'sub')
            if len(nd) > 1: self.fact(z3.Implies(z3.And(a0 >= 0, a0 <= n, vs[1].e >= 0), self.size(r) == z3.If(vs[1].e <= n - a0, vs[1].e, n - a0)))
            else: self.fact(z3.Implies(z3.And(a0 >= 0, a0 <= n), self.size(r) == n - a0))
            return Val(r, t)
        if nm == 'erase':
            if vs and vs[0].cont is None and isstr:
                self.need(st, a0 <= n, 'range', 'erase() from a position in range')
                ne = self.setc(st, o); self.fact(self.size(ne) <= n)
                if len(nd) == 1: self.fact(z3.Implies(a0 <= n, self.size(ne) == a0))
                return Val(ne, ot, o.lv)
            if len(nd) == 1 and vs[0].cont is not None: self.need(st, z3.And(a0 >= 0, a0 < n), 'range', 'erase() of an element')
            ne = self.setc(st, o); self.fact(self.size(ne) <= n); self.fact(z3.Implies(self.allnn(e), self.allnn(ne)))
            i = self.fresh(parse('unsigned long'), 'it'); self.fact(i <= self.size(ne))
            return Val(i, t.noref(), None, ne, None, o.lv)
        if isstr and nm in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of', 'find_if', 'find_insensitive'):
            i = self.uf(f'str_{nm}', [e] + self.vals(vs)); self.fact(i >= 0)
            self.fact(z3.Or(i == NPOS, i < n) if nm not in ('find', 'rfind') else z3.Or(i == NPOS, i <= n))
            if nm in ('find', 'rfind') and vs and vs[0].e is not None:
                if is_int(vs[0].t): self.fact(z3.Or(i == NPOS, i < n))
                else: self.fact(z3.Or(i == NPOS, i + self.size(vs[0].e) <= n))
            if nm in ('find', 'find_first_of', 'find_first_not_of') and len(nd) > 1: self.fact(z3.Implies(nd[1].e >= 0, i >= nd[1].e))
            return Val(i, t)
        if isstr and nm in ('starts_with', 'ends_with', 'contains', 'consume_front', 'consume_back', 'starts_with_insensitive'):
            b = self.uf('str_' + nm, [e] + self.vals(vs), B)
            if vs and (is_cont(vs[0].t) or vs[0].t.name == 'char' and vs[0].t.is_ptr()): self.fact(z3.Implies(b, self.size(vs[0].e) <= n))
            if nm.startswith('consume'): self.havoc(st, o.lv, ot); return self.result(st, t)
            return Val(b, parse('bool'))
        if nm in ('str', 'operator basic_string_view', 'operator StringRef', 'data', 'c_str', 'operator basic_string', 'getString', 'asArray', 'children') and isstr or nm == 'asArray':
            if nm == 'c_str' and e is not None: self.fact(e != 0)
            return Val(e, t)
        if nm == 'data' and not isstr: return Val(z3.IntVal(0), t, None, e, None, o.lv)
        if nm in ('drop_front', 'drop_back', 'trim', 'ltrim', 'rtrim', 'lower', 'upper', 'slice', 'take_front', 'take_back', 'split', 'rsplit', 'replace', 'compare', 'equals', 'equals_insensitive', 'getAsInteger', 'contains_insensitive', 'swap', 'bytes'):
            if nm in ('compare', 'equals', 'equals_insensitive', 'contains_insensitive'):
                if nm == 'compare' and ot.name in ('std::basic_string', 'std::basic_string_view') and len(nd) > 1: self.need(st, a0 <= n, 'range', 'compare() from a position in range')
                return self.pure(st, 'str_' + nm, vs, t, e)
            if nm == 'replace':
                if isstr and nd and nd[0].cont is None and is_int(nd[0].t): self.need(st, a0 <= n, 'range', 'replace() from a position in range')
                ne = self.setc(st, o); return Val(ne, ot, o.lv)
            if nm == 'swap': self.setc(st, o); self.outs(st, c.get('pt', []), vs); return Val(None, t)
            self.outs(st, c.get('pt', []), vs)
            return self.result(st, t)
        return None
    def setc_grow(self, st, o):
        n = self.size(o.e)
        ne = self.setc(st, o); self.fact(self.size(ne) >= n); return ne
    def el(self, c, i, t, o):
        tt = t.noref()
        if is_bool(tt): return Val(self.fresh(tt), tt, ('none',))
        e = self.elem(c, i); self.typed(e, tt)
        return Val(e, tt, ('elem', c, i, o.lv))

    CASTS = {'isa': ('isa', False), 'isa_and_nonnull': ('isa', True), 'isa_and_present': ('isa', True), 'dyn_cast': ('dyn', False), 'dyn_cast_or_null': ('dyn', True), 'dyn_cast_if_present': ('dyn', True),
             'cast': ('cast', False), 'cast_or_null': ('cast', True), 'cast_if_present': ('cast', True), 'unique_dyn_cast': ('dyn', False)}
    def free(self, st, n, c, s, vs, args):
        t = parse(c['rt']); nm = s.split('::')[-1]
        w = self.w
        if s.startswith('llvm::') and nm in self.CASTS and vs:
            what, nullok = self.CASTS[nm]
            v = vs[0]
            x = v.e
            vt = v.t.noref()
            if vt.name == 'clang::QualType' and not vt.is_ptr():
                if not nullok: self.nonnull(st, v, f'{nm}<> of')
                x = self.typ(x); vt = parse('const clang::Type *')
            elif vt.is_ptr() or vt.name in SMART:
                if not nullok: self.nonnull(st, v, f'{nm}<> of')
            ta = [a for a in c.get('ta', []) if a != '?']
            if not ta: return self.result(st, t)
            if what == 'isa':
                src = vt.name
                tys = ta[:-1] if len(ta) > 1 else ta
                e = z3.Or(*[self.isa(parse(a).name, x, vt) for a in tys])
                return Val(z3.And(x != 0, e) if nullok else e, parse('bool'))
            i = self.isa(parse(ta[0]).name, x, vt)
            if what == 'cast':
                self.need(st, z3.Implies(x != 0, i) if nullok else i, 'cast', f'cast<{parse(ta[0]).name.split("::")[-1]}> of an object of that class')
                return Val(x, t.noref())
            return Val(z3.If(z3.And(x != 0, i) if nullok else i, x, z3.IntVal(0)), t)
        u = w.callee(self.stack[-1], c)
        lam = any(v.k == 'lambda' for v in vs)
        if u is not None:
            if lam or self.tab.ALGO.get(s): 
                r = self.algorithm(st, s, nm, vs, t, args)
                if r is not None: return r
            return self.apply(st, u, c, vs, args, None)
        if s.startswith('std::') or s.startswith('llvm::') or lam:
            r = self.algorithm(st, s, nm, vs, t, args)
            if r is not None: return r
        r = self.tab.model(self, st, s, nm, '', None, vs, t, c)
        if r is not None: return r
        self.lambdas(st, vs, None)
        if nm in ('operator==', 'operator!=') and len(vs) == 2 and all(v.e is not None and not z3.is_bool(v.e) for v in vs):
            e = vs[0].e == vs[1].e
            return Val(e if nm == 'operator==' else z3.Not(e), parse('bool'))
        if c.get('method') and c.get('static'): pass
        if self.outs(st, c.get('pt', []), vs): return self.result(st, t)
        if c.get('root'): self.impure = True; return self.result(st, t)
        if s.split('::')[0] in ('std',) or not s.startswith('clang::'):
            return self.result(st, t)
        return self.pure(st, s, vs, t)
    def rng(self, vs):
        """the range an algorithm is given: (container, first index, number of arguments)"""
        if len(vs) >= 2 and vs[0].cont is not None and vs[1].cont is not None: return vs[0].cont, vs[0].e, 2
        if vs and vs[0].e is not None and not z3.is_bool(vs[0].e) and vs[0].k is None and not is_int(vs[0].t): return vs[0].e, z3.IntVal(0), 1
        return None, None, 0
    def algorithm(self, st, s, nm, vs, t, args):
        if nm == 'operator()': nm = s.split('::')[-2].strip('_').replace('_fn', '')
        if s.startswith('std::ranges::__') : nm = s.split('::')[2].strip('_')[:-3]
        cont, first, k = self.rng(vs)
        if nm in ('any_of', 'all_of', 'none_of', 'for_each', 'count_if', 'find_if', 'find_if_not', 'remove_if', 'transform', 'copy_if', 'sort', 'erase_if', 'stable_sort', 'max_element', 'min_element', 'unique', 'partition', 'find', 'count', 'remove', 'copy', 'adjacent_find', 'find_first_of', 'lower_bound', 'search', 'equal', 'contains', 'all_equal', 'mismatch', 'binary_search', 'find_last_if'):
            self.lambdas(st, vs[k:] if k else vs, cont)
            if nm in ('find_if', 'find_if_not', 'remove_if', 'find', 'remove', 'unique', 'adjacent_find', 'find_first_of', 'lower_bound', 'search', 'max_element', 'min_element', 'partition') and cont is not None:
                i = self.fresh(parse('unsigned long'), 'it'); n = self.size(cont)
                self.fact(z3.Implies(first >= 0, i >= first)); self.fact(z3.Or(i <= n, first > n))
                return Val(i, t.noref(), None, cont, None, vs[0].x if k == 2 else vs[0].lv)
            if nm in ('copy', 'copy_if', 'transform') :
                dst = vs[k] if len(vs) > k else None
                if dst is not None and dst.k == 'backins':
                    o = self.read(st, dst.x, parse('int')) if dst.x else None
                    if o is not None:
                        n = self.size(o.e)
                        ne = self.setc(st, Val(o.e, o.t, dst.x))
                        self.fact(self.size(ne) >= n)
                        if nm != 'transform' and cont is not None:
                            self.fact(z3.Implies(z3.And(self.allnn(o.e), self.allnn(cont)), self.allnn(ne)))
                            if nm == 'copy': self.fact(self.size(ne) == n + self.size(cont))
                elif dst is not None: self.outs(st, ['int &'], [dst])
                return self.result(st, t)
            if nm in ('sort', 'stable_sort'):
                lv = vs[0].x if k == 2 else vs[0].lv
                if lv:
                    o = self.read(st, lv, parse('int'))
                    ne = self.setc(st, Val(o.e, o.t, lv), self.size(o.e)); self.fact(self.allnn(ne) == self.allnn(o.e))
                return self.result(st, t)
            if nm in ('erase_if',):
                o = vs[0]; ne = self.setc(st, o); self.fact(z3.Implies(self.allnn(o.e), self.allnn(ne))); return self.result(st, t)
            if nm == 'any_of' and cont is not None and k == 1:
                e = self.fresh(parse('bool'), 'any'); self.fact(z3.Implies(e, self.size(cont) > 0)); return Val(e, parse('bool'))
            return self.result(st, t)
        if nm == 'back_inserter': return Val(self.fresh(parse('int')), t, None, None, 'backins', vs[0].lv)
        if nm in ('move', 'forward', 'addressof', 'as_const'):
            return vs[0] if nm != 'addressof' else Val(vs[0].e, t)
        if nm == 'distance' and len(vs) == 2:
            if vs[0].cont is not None and vs[1].cont is not None: return Val(vs[1].e - vs[0].e, t)
            e = self.fresh(t); return Val(e, t)
        if nm in ('next', 'prev') and vs and vs[0].cont is not None:
            d = vs[1].e if len(vs) > 1 else z3.IntVal(1)
            return Val(vs[0].e + d if nm == 'next' else vs[0].e - d, vs[0].t, None, vs[0].cont, None, vs[0].x)
        if nm == 'advance' and vs and vs[0].cont is not None:
            self.write(st, vs[0].lv, Val(vs[0].e + vs[1].e, vs[0].t, None, vs[0].cont, None, vs[0].x)); return Val(None, t)
        if nm in ('begin', 'cbegin', 'end', 'cend') and cont is not None:
            return Val(z3.IntVal(0) if 'begin' in nm else self.size(cont), t.noref(), None, cont, None, vs[0].lv)
        if nm in ('size', 'ssize') and cont is not None: return Val(self.size(cont), t)
        if nm in ('empty',) and cont is not None: return Val(self.size(cont) == 0, parse('bool'))
        if nm in ('make_unique', 'make_shared', 'make_intrusive_refcnt', 'makeIntrusiveRefCnt'):
            e = self.fresh(t, 'new'); self.fact(e != 0); return Val(e, t)
        if nm == 'operator+' and len(vs) == 2 and is_cont(t):
            r = self.fresh(t, 'cat')
            ns = [self.size(v.e) if (is_cont(v.t) or v.t.name == 'char' and (v.t.is_ptr() or v.t.arr is not None)) else z3.IntVal(1) for v in vs]
            for v in vs:
                if v.t.name == 'char' and v.t.is_ptr(): self.nonnull(st, v, 'a C string that is appended')
            self.fact(self.size(r) == ns[0] + ns[1]); return Val(r, t)
        if nm == 'operator""sv' or nm == 'operator""s': return Val(vs[0].e, t)
        if nm in ('min', 'max') and len(vs) == 2 and is_int(t.noref()):
            x, y = vs[0].e, vs[1].e
            return Val(z3.If(x <= y, x, y) if nm == 'min' else z3.If(x >= y, x, y), t.noref())
        if nm in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            if nm in ('operator==', 'operator!='): return None
            if all(v.cont is not None for v in vs): return self.arith(st, nm[8:], vs[0], vs[1], t)
            return self.result(st, t)
        if nm in ('stoi', 'stol', 'stoul', 'stoull', 'stod', 'stof', 'stoll'):
            self.need(st, z3.BoolVal(False), 'throw', f'std::{nm} of text that is a number')
            return self.result(st, t)
        if nm in ('get_if',): return self.result(st, t)
        return None
    def lambdas(self, st, vs, cont):
        for v in vs:
            if v.k == 'lambda':
                lam = v.x
                ps = lam.get('params', [])
                avs = []
                for p in ps:
                    pt = parse(p['t']).noref()
                    if cont is not None and not is_bool(pt):
                        i = self.fresh(parse('unsigned long'), 'i')
                        s2 = self.elem(cont, i)
                        avs.append(Val(s2, pt)); self.n += 1
                        st0 = z3.And(i < self.size(cont))
                        avs[-1].x = st0
                    else: avs.append(Val(self.fresh(pt), pt))
                self.run_lambda(st, lam, avs)
            elif v.k == 'fnref' and cont is not None:
                u = self.w.callee(self.stack[-1], v.x)
                if u and self.w.f.get(u) and len(self.w.f[u]['params']) == 1:
                    s2 = st.fork(); i = self.fresh(parse('unsigned long'), 'i'); s2.pc.append(i < self.size(cont))
                    self.apply(s2, u, v.x, [Val(self.elem(cont, i), parse(v.x['pt'][0]).noref())], [{}], None)
    def run_lambda(self, st, lam, avs):
        """the body for arbitrary elements, any number of times"""
        self.lamran.add(self.lamat.get(id(lam)))
        asg = assigned(lam.get('body'))
        def hv(s):
            for i in asg['vars']:
                if i in s.env: self.havoc(s, ('var', i), s.env[i].t)
            for f in asg_fields(self, lam.get('body')): self.bump(s, f)
        hv(st)
        s2 = st.fork()
        for p, v in zip(lam['params'], avs):
            if v.x is not None and z3.is_bool(v.x): s2.pc.append(v.x)
            s2.env[p['id']] = Val(v.e, parse(p['t']).noref())
        self.inlambda += 1
        sv = self.rets, self.loops
        self.rets, self.loops = [], []
        self.st(s2, lam['body'])
        self.rets, self.loops = sv
        self.inlambda -= 1
        hv(st)
    def inline_lambda(self, st, o, vs, t):
        lam = o.x
        if len(self.stack) > 12: return self.result(st, t)
        self.lamran.add(self.lamat.get(id(lam)))
        for p, v in zip(lam['params'], vs):
            pt = parse(p['t'])
            if pt.ref and v.lv is not None and v.lv[0] != 'none': st.env[p['id']] = Val(None, pt.noref(), None, None, 'alias', v.lv)
            else: st.env[p['id']] = v.w(lv=None, t=pt.noref() if v.cont is None else v.t)
        sv = self.rets, self.loops
        self.rets, self.loops = [], []
        base = st.fork()
        self.stack.append(self.stack[-1])
        self.st(st, lam['body'])
        self.stack.pop()
        rets, (self.rets, self.loops) = self.rets, sv
        return self.join(st, base, rets, t)
    def join(self, st, base, rets, t):
        """after an inlined body: st fell through; rets are its return states"""
        key = ('ret', self.n); self.n += 1
        ss = []
        void = t.name == 'void' and not t.is_ptr()
        for s, v in rets:
            if not void and v is not None and v.e is not None: s.env[key] = Val(self.conv(v, t), t.noref(), None, v.cont, None, v.x)
            elif not void: s.env[key] = Val(self.fresh(t.noref()), t.noref())
            ss.append(s)
        if st.alive:
            if not void: st.env[key] = Val(self.fresh(t.noref()), t.noref())
            ss.append(st.fork())
        m = self.merge(base, ss)
        st.env, st.pc, st.ver, st.alive = m.env, m.pc, m.ver, m.alive
        if void: return Val(None, t)
        r = st.env.pop(key, None)
        return r.w(lv=None) if r is not None else Val(self.fresh(t.noref()), t.noref())

    # ---- contracts
    def virtual(self, st, c, o, vs, args):
        nm = c['n'].split('::')[-1]
        nn = self.tab.ENTRY.get(nm)
        for i, v in enumerate(vs):
            pt = parse(c['pt'][i]) if i < len(c.get('pt', [])) else None
            if pt is not None and pt.is_ptr() and not pt.ref and nn is not None and i in nn and not outptr(pt):
                self.nonnull(st, v, f'argument {i + 1} of {nm}() is')
        self.tab.dispatch(self, st, nm, vs)
        self.lambdas(st, vs, None)
        for u in self.w.byname.get(c['n'], ()):
            for f in self.w.reach[u]: self.bump(st, f)
        self.outs(st, c.get('pt', []), vs)
        self.impure = True
        return self.result(st, parse(c['rt']))
    def apply(self, st, u, c, vs, args, o):
        """call of a function of /repo: its requires are obligations, its ensures are known"""
        w = self.w
        fn = w.f[u]
        t = parse(c['rt'])
        ct = w.contract.get(u)
        self.used.add(u)
        nm = fn['n']
        self.lambdas(st, vs, None)
        sub, outs = [], []
        if o is not None and o.e is not None: sub.append((formal_this(), o.e))
        for i, p in enumerate(fn['params']):
            if i >= len(vs): break
            pt = parse(p['t']); v = vs[i]
            if v.e is None: v = v.w(e=self.fresh(pt.noref() if not outptr(pt) else pt))
            sub.append((formal(fn, i), self.conv(v, pt.noref()) if not outptr(pt) else b2i(v.e)))
        if ct is not None:
            # the memory the contract speaks of is the one before the call
            for v in sorted(set().union(*[consts(e) for e, _ in ct.req + ct.ens])) if ct.req or ct.ens else ():
                if v in w.vernames: sub.append((z3.Int(v), self.version(st, w.vernames[v])))
            for r, why in ct.req:
                self.need(st, self.register(z3.substitute(r, *sub)), 'requires', f'precondition of {nm.split("::")[-1]}(): {why}', u)
        for f in w.reach[u]: self.bump(st, f)
        if w.reach[u] & w.mutable: self.impure = True
        osub = []
        for i, p in enumerate(fn['params']):
            if i >= len(vs): break
            pt = parse(p['t']); v = vs[i]
            if outref(pt) and v.lv is not None:
                nv = self.havoc(st, v.lv, pt.noref())
                if nv is not None and nv.e is not None: osub.append((formal_out(fn, i), nv.e))
            elif outptr(pt):
                if v.k in ('addr', 'addrp'):
                    nv = self.havoc(st, v.x, pt.pointee())
                    if nv is not None and nv.e is not None: osub.append((formal_out(fn, i), nv.e))
            elif pt.ref == '&' and not pt.const and v.lv is not None and v.lv[0] == 'var' and pt.name not in w.records: self.havoc(st, v.lv, pt.noref())
        if c.get('k') == 'ctor' or fn.get('ctor'): return Val(o.e, o.t)
        if t.name == 'void' and not t.is_ptr():
            if ct is not None and osub: self.ens(st, ct, sub + osub, None)
            return Val(None, t)
        t2 = t.noref()
        if ct is not None and ct.pure:
            a = [x for _, x in sub]
            e = self.uf('c_' + sane(strip(nm)) + '_' + hashlib.sha1(u.encode()).hexdigest()[:6], a, sort(t2)); self.typed(e, t2)
        else: e = self.fresh(t2, 'r'); self.impure = True
        if ct is not None: self.ens(st, ct, sub + osub, e, fn)
        return Val(e, t2, ('none',) if t.ref == '&' and not t.const else None)
    def ens(self, st, ct, sub, ret, fn=None):
        have = {str(a) for a, _ in sub}
        s = list(sub)
        if ret is not None: s.append((z3.Const('ret', ret.sort()), ret)); have.add('ret')
        for e, why in ct.ens:
            if all(v in have for v in fvars(e)):
                x = self.register(z3.substitute(e, *s))
                self.assume(st, x)
                if why == 'implied by the result': self.atom(x)

    def register(self, e):
        """facts about the terms of a formula that comes from a contract"""
        todo = [e]
        while todo:
            x = todo.pop()
            k = x.get_id()
            if k in self.reg: continue
            self.reg.add(k); self.keep.append(x)
            if not z3.is_app(x): continue
            todo.extend(x.children())
            if x.num_args() == 0: continue
            nm = x.decl().name(); a = x.children()
            if nm == 'size': self.size(a[0])
            elif nm == 'elem': self.elem(a[0], a[1])
            elif nm == 'typ': self.typ(a[0])
            elif nm.startswith('isa_'): self.isa(nm[4:], a[0])
            elif nm.startswith('rng_'):
                self.size(x)
                if nm[4:] in self.tab.NN_RANGES: self.fact(self.allnn(x))
                for f in self.tab.facts(self, nm, a, x): self.fact(f)
            elif nm in self.w.names:
                q, t = self.w.names[nm]
                self.typed(x, t)
                if nm.startswith('m_'): self.pfacts(q, a, x, t)
                elif q in self.tab.FIELD_NONNULL: self.fact(x != 0)
        return e

    # ---- statements
    def st(self, st, n):
        if n is None or not st.alive: return
        if self.deadline and time.time() > self.deadline: raise Giveup('time')
        if n.get('l'): self.line = n['l']
        h = getattr(self, 's_' + n['k'], None)
        if h: h(st, n)
        elif 't' in n: self.ev(st, n)
        else:
            self.unchecked.add('statement ' + n['k'])
            for c in n.get('c', []):
                if isinstance(c, dict): self.st(st, c)
    def become(self, st, m): st.env, st.pc, st.ver, st.alive = m.env, m.pc, m.ver, m.alive
    def s_CompoundStmt(self, st, n):
        for c in n.get('c', []):
            if not st.alive: return
            self.st(st, c)
    def s_NullStmt(self, st, n): pass
    def s_AttributedStmt(self, st, n): self.s_CompoundStmt(st, n)
    def s_DeclStmt(self, st, n):
        for v in n['decls']:
            if v['k'] == 'VarDecl': self.var(st, v)
    def var(self, st, v):
        if v.get('l'): self.line = v['l']
        t = parse(v['t'])
        if v.get('static'):
            if v.get('init'): self.ev(st, v['init'])
            return
        if v.get('init'):
            x = self.ev(st, v['init'])
            if x.k == 'lambda' or x.k == 'fnref': st.env[v['id']] = x.w(lv=None); return
            if t.ref and not t.const and x.lv is not None and x.lv[0] in ('var', 'field', 'elem'):
                st.env[v['id']] = Val(None, t.noref(), None, None, 'alias', x.lv)
            else:
                tt = t.noref()
                if x.cont is not None: tt2 = tt if (is_iter(tt) or tt.is_ptr()) else tt
                e = self.conv(x, tt) if x.e is not None else self.fresh(tt)
                st.env[v['id']] = Val(e, tt, None, x.cont, x.k, x.x)
        else: st.env[v['id']] = Val(self.default(t) if is_cont(t) else self.fresh(t), t)
        for b in v.get('bindings', ()):
            bt = parse(b['t'])
            if b.get('e') and b['e']['k'] == 'MemberExpr':
                x = self.ev(st, b['e']); st.env[b['id']] = Val(self.conv(x, bt.noref()) if x.e is not None else self.fresh(bt.noref()), bt.noref())
            else: st.env[b['id']] = Val(self.fresh(bt.noref()), bt.noref())
    def s_IfStmt(self, st, n):
        if n.get('init'): self.st(st, n['init'])
        if n.get('var'): self.var(st, n['var'])
        if n.get('constexpr') and 'cval' in n:
            self.st(st, n['then'] if n['cval'] else n.get('else')); return
        c = self.cond(self.ev(st, n['cond'])); self.atom(c)
        a, b = self.branch(st, c)
        self.st(a, n['then'])
        if n.get('else'): self.st(b, n['else'])
        self.become(st, self.merge(st, [a, b]))
    def s_ReturnStmt(self, st, n):
        v = self.ev(st, n['e']) if n.get('e') else None
        self.rets.append((st.fork(), v)); st.alive = False
    def s_BreakStmt(self, st, n):
        self.loops[-1]['brk'].append(st.fork()); st.alive = False
    def s_ContinueStmt(self, st, n):
        for l in reversed(self.loops):
            if l['cont'] is not None: l['cont'].append(st.fork()); break
        st.alive = False
    def s_SwitchStmt(self, st, n):
        v = self.ev(st, n['cond'])
        x = b2i(v.e) if v.e is not None else self.fresh(parse('int'))
        body = n['body'].get('c', []) if n['body']['k'] == 'CompoundStmt' else [n['body']]
        labels, has = [], False
        def unlabel(c):
            ls = []
            while c is not None and c['k'] in ('CaseStmt', 'DefaultStmt'):
                if c['k'] == 'CaseStmt':
                    w = self.ev(st, c['lhs']); ls.append(x == b2i(w.e))
                else: ls.append(None)
                c = c['sub']
            return ls, c
        items = [unlabel(c) for c in body]
        every = [l for ls, _ in items for l in ls if l is not None]
        none = z3.Not(z3.Or(*every)) if every else z3.BoolVal(True)
        self.loops.append({'brk': [], 'cont': None})
        cur = st.fork(); cur.alive = False
        for ls, c in items:
            if ls:
                g = z3.Or(*[l if l is not None else none for l in ls])
                has = has or any(l is None for l in ls)
                s2 = st.fork(); s2.pc.append(g)
                cur = self.merge(st, [cur, s2])
            if c is not None: self.st(cur, c)
        l = self.loops.pop()
        end = [cur] + l['brk']
        if not has:
            s2 = st.fork(); s2.pc.append(none); end.append(s2)
        self.become(st, self.merge(st, end))
    def s_CXXTryStmt(self, st, n): self.s_CompoundStmt(st, {'c': n.get('c', [])[:1]}); self.unchecked.add('exception handler')

    def asgvars(self, st, node):
        ids = set(assigned(node)['vars'])
        todo, seen = [node], set()
        while todo:
            x = todo.pop()
            if isinstance(x, list): todo.extend(x); continue
            if not isinstance(x, dict): continue
            if x.get('k') == 'DeclRefExpr' and x['id'] in st.env and x['id'] not in seen:
                v = st.env[x['id']]
                if v.k == 'lambda':
                    seen.add(x['id']); b = v.x.get('body'); ids |= assigned(b)['vars']; todo.append(b)
            todo.extend(y for y in x.values() if isinstance(y, (dict, list)))
        out = set()
        for i in ids:
            k = 0
            while i in st.env and st.env[i].k == 'alias' and k < 9:
                lv = st.env[i].x; k += 1
                if lv[0] == 'elem' and lv[3]: lv = lv[3]
                if lv[0] != 'var': i = None; break
                i = lv[1]
            if i is not None and i in st.env: out.add(i)
        for i in list(out):
            v = st.env[i]
            if v.k in ('addr', 'addrp') and v.x[0] == 'var' and v.x[1] in st.env: out.add(v.x[1])
        return out
    def loop(self, st, node, head, body, inc, post=False):
        """head(s) gives the condition, body(s), inc(s) run; post: the condition comes after the body"""
        vs = [i for i in self.asgvars(st, node) if st.env[i].k not in ('lambda', 'fnref', 'alias') and st.env[i].e is not None]
        fs = asg_fields(self, node)
        entry = st.fork()
        cands = []
        for i in vs:
            v = st.env[i]
            if z3.is_bool(v.e):
                cands.append((lambda s, i=i: s.env[i].e)); cands.append((lambda s, i=i: z3.Not(s.env[i].e)))
            else:
                e0 = v.e
                cands.append(lambda s, i=i: s.env[i].e != 0)
                if v.cont is not None:
                    cands.append(lambda s, i=i, c=v.cont: z3.And(s.env[i].e >= 0, s.env[i].e <= self.size(c)) if s.env[i].cont is not None and s.env[i].cont.eq(c) else z3.BoolVal(False))
                elif is_int(v.t):
                    for f in (lambda s, i=i, e=e0: s.env[i].e >= e, lambda s, i=i, e=e0: s.env[i].e <= e, lambda s, i=i: s.env[i].e >= 0): cands.append(f)
                elif is_cont(v.t):
                    cands.append(lambda s, i=i: self.allnn(s.env[i].e))
                    cands.append(lambda s, i=i, e=e0: z3.Implies(self.allnn(e), self.allnn(s.env[i].e)))
                    cands.append(lambda s, i=i, e=e0: self.size(s.env[i].e) >= self.size(e))
                    cands.append(lambda s, i=i, e=e0: self.size(s.env[i].e) <= self.size(e))
                    cands.append(lambda s, i=i: self.size(s.env[i].e) > 0)
        cands = [c for c in cands if self.prove(entry.pc, c(entry))]
        def once(s, cs):
            """one arbitrary iteration from a state with the invariant: (exit states, back states)"""
            hc = []
            for i in vs:
                v = s.env[i]
                e = self.fresh(v.t, 'L')
                s.env[i] = Val(e, v.t, None, v.cont, v.k, v.x); hc.append((e, i))
            for f in fs: self.bump(s, f)
            for c in cs: self.assume(s, c(s))
            self.loops.append({'brk': [], 'cont': []})
            ex, guard = [], None
            if not post:
                g = head(s)
                if g is not None:
                    guard = g
                    a, b = self.branch(s, g); ex.append(b); self.become(s, a)
            body(s)
            l = self.loops.pop()
            s = self.merge(entry, [s] + l['cont'])
            if s.alive: inc(s)
            if post and s.alive:
                g = head(s)
                a, b = self.branch(s, g); ex.append(b); s = a
            return ex + l['brk'], s, guard, hc
        rec = self.record
        self.record = False
        extra = False
        for r in range(MAXLOOP + 1):
            nf, seen, isas, nr, reg = len(self.facts), set(self.seen), {k: dict(v) for k, v in self.isas.items()}, len(self.rets), set(self.reg)
            self.solver.push()
            n0 = self.n
            h = entry.fork()
            exits, back, guard, hc = once(h, cands)
            keep = [c for c in cands if not back.alive or self.prove(back.pc, c(back))]
            new = []
            if guard is not None and not extra:
                extra = True
                hm = {e.decl().name(): i for e, i in hc}
                todo = [guard]
                while todo:
                    g = todo.pop()
                    if z3.is_and(g) or z3.is_or(g): todo.extend(g.children()); continue
                    if z3.is_not(g) : g = g.arg(0); continue
                    if not (z3.is_lt(g) or z3.is_le(g) or z3.is_gt(g) or z3.is_ge(g)): continue
                    a, b = g.children()
                    if z3.is_gt(g) or z3.is_ge(g): a, b = b, a
                    f = a <= b
                    if all(nm in hm or '!' not in nm or int(nm.split('!')[-1]) <= n0 for nm in consts(f)):
                        new.append(lambda s, f=f, hc=hc: z3.substitute(f, *[(e, b2i(s.env[i].e)) for e, i in hc if not z3.is_bool(e)]))
            self.solver.pop()
            del self.facts[nf:], self.rets[nr:]
            self.seen, self.isas, self.reg = seen, isas, reg
            if len(keep) == len(cands) and not new: break
            cands = keep + [c for c in new if self.prove(entry.pc, c(entry))]
        else: cands = []
        self.record = rec
        exits, back, guard, hc = once(st, cands)
        self.become(st, self.merge(entry, exits))
    def s_WhileStmt(self, st, n):
        def head(s):
            if n.get('var'): self.var(s, n['var'])
            c = self.cond(self.ev(s, n['cond'])); self.atom(c); return c
        self.loop(st, n, head, lambda s: self.st(s, n['body']), lambda s: None)
    def s_DoStmt(self, st, n):
        self.loop(st, n, lambda s: self.cond(self.ev(s, n['cond'])), lambda s: self.st(s, n['body']), lambda s: None, post=True)
    def s_ForStmt(self, st, n):
        if n.get('init'): self.st(st, n['init'])
        def head(s):
            if not n.get('cond'): return None
            return self.cond(self.ev(s, n['cond']))
        def inc(s):
            if n.get('inc'): self.ev(s, n['inc'])
        self.loop(st, {'k': 'x', 'c': [n.get('cond'), n.get('inc'), n['body']]}, head, lambda s: self.st(s, n['body']), inc)
    def s_CXXForRangeStmt(self, st, n):
        if n.get('init'): self.st(st, n['init'])
        r = self.ev(st, n['range'])
        v = n['var']
        t = parse(v['t'])
        c = r.cont if r.cont is not None else r.e
        if c is None or z3.is_bool(c): c = self.fresh(parse('int'), 'range')
        if r.t.arr is not None: self.size(c)
        clv = r.lv
        ix = []
        def head(s):
            i = self.fresh(parse('unsigned long'), 'i')
            ix.append(i)
            return z3.And(i >= 0, i < self.size(c))
        def body(s):
            i = ix[-1]; tt = t.noref()
            if is_bool(tt): s.env[v['id']] = Val(self.fresh(tt), tt)
            elif t.ref == '&' and not t.const and clv is not None and clv[0] in ('var', 'field'):
                s.env[v['id']] = Val(None, tt, None, None, 'alias', ('elem', c, i, None if not is_cont(r.t) else clv))
                self.elem(c, i)
            else:
                e = self.elem(c, i); self.typed(e, tt); s.env[v['id']] = Val(e, tt)
            b0 = s.env[v['id']]
            for b in v.get('bindings', ()):
                bt = parse(b['t']).noref()
                if b.get('e') and b['e'].get('k') == 'MemberExpr':
                    x = self.ev(s, b['e']); s.env[b['id']] = Val(self.conv(x, bt) if x.e is not None else self.fresh(bt), bt)
                else:
                    j = len(s.env); e = self.uf(f'fld_bind_{b["n"]}', [self.elem(c, i)], sort(bt)); self.typed(e, bt); s.env[b['id']] = Val(e, bt)
            self.st(s, n['body'])
        node = {'k': 'x', 'c': [n['body']]}
        if t.ref == '&' and not t.const: node['c'].append({'k': 'CXXForRangeStmt', 'var': v, 'range': n['range']})
        self.loop(st, node, head, body, lambda s: None)

# ---------------------------------------------------------------- one function
import time
MAXREQ = 8
def execute(w, uid, deadline=120):
    fn = w.f[uid]
    ex = Ex(w, fn)
    ex.deadline = time.time() + deadline
    st = St({}, [], {})
    this = formal_this()
    if fn.get('method') and not fn.get('static') or fn.get('ctor'):
        ex.fact(this != 0)
        st.env['this'] = Val(this, parse(fn.get('rec', 'int')))
    else: st.env['this'] = Val(this, parse('int'))
    outs = []
    entry = w.tab.ENTRY.get(fn['n'].split('::')[-1]) if fn.get('method') and not fn.get('static') else None
    for i, p in enumerate(fn['params']):
        t = parse(p['t'])
        e = formal(fn, i)
        ex.typed(e, t.noref())
        if outptr(t):
            st.env[('outp', i)] = Val(ex.fresh(t.pointee(), 'in'), t.pointee())
            st.env[p['id']] = Val(e, t, None, None, 'addrp', ('var', ('outp', i)))
            outs.append((i, ('outp', i)))
        else:
            st.env[p['id']] = Val(e, t.noref())
            if outref(t): outs.append((i, p['id']))
        if entry is not None and i in entry and t.is_ptr(): ex.fact(e != 0)
    w.tab.entry_facts(ex, st, fn, entry is not None)
    ct = w.contract.get(uid)
    if ct:
        for r, why in ct.req: ex.assume(st, ex.register(r))
    for x in fn.get('inits', ()):
        v = ex.ev(st, x['e'])
        if x.get('field') and v.e is not None and v.k not in ('lambda', 'fnref'):
            q = fn.get('rec', '?') + '::' + x['field']
            ft = next((parse(f['t']) for f in w.records.get(fn.get('rec'), {}).get('fields', ()) if f['n'] == x['field']), None)
            if q in w.tab.FIELD_NONNULL and q not in w.tab.LATE: ex.need(st, v.e != 0, 'field', f'{q} is never null')
    ex.st(st, fn['body'])
    if st.alive: ex.rets.append((st, None))
    return ex, outs

def lift(ex, o):
    """an obligation about the parameters becomes a precondition"""
    c = z3.simplify(o.cond)
    if not closed(c):
        # a parameter or a field at entry that has to be not null for it
        t0 = [formal(ex.fn, i) for i, p in enumerate(ex.fn['params']) if is_nullable(parse(p['t']).noref()) and not outptr(parse(p['t']))]
        todo = [c] + list(o.pc)
        seen = set()
        while todo and len(seen) < 300:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id()); todo.extend(x.children())
            if z3.is_app(x) and x.num_args() and x.decl().name().startswith('fld_') and not z3.is_bool(x) and closed(x) and x.decl().name() in ex.w.names and is_nullable(ex.w.names[x.decl().name()][1]): t0.append(x)
        t0 = [x != 0 for x in t0]
        # a container without null elements
        t0 += [ex.allnn(formal(ex.fn, i)) for i, p in enumerate(ex.fn['params']) if is_cont(parse(p['t']).noref()) and not outptr(parse(p['t'])) and not outref(parse(p['t']))] if o.kind in ('null', 'requires') else []
        for x in t0:
            if not ex.prove(o.pc, x) and ex.prove(list(o.pc) + [x], o.cond): c = x; break
        else: return None
    fv = set(fvars(c))
    if not fv: return None
    pcs = []
    for p in o.pc:
        if closed(p) and weight(p, 60) <= 60 and not any(p.eq(q) for q in pcs): pcs.append(p)
    ct = ex.w.contract.get(ex.fn['uid'])
    old = [r for r, _ in ct.req] if ct else []
    pcs = [p for p in pcs if not any(p.eq(r) for r in old)]
    if sum(weight(p) for p in pcs) > 90: pcs = [p for p in pcs if set(fvars(p)) & fv]
    if sum(weight(p) for p in pcs) > 90: pcs = []
    r = z3.simplify(z3.Implies(z3.And(*pcs), c)) if pcs else c
    if z3.is_true(r): return None
    return r, f'{o.why} (line {o.line})'

def seeds(fn):
    """candidates for the postconditions of a recursive function"""
    r = []
    sz = lambda x: z3.Function('size', I, I)(x)
    nn = lambda x: z3.Function('allnn', I, B)(x)
    for i, p in enumerate(fn['params']):
        t = parse(p['t'])
        if not (outref(t) or outptr(t)): continue
        xt = t.pointee() if outptr(t) else t.noref()
        o, q = formal_out(fn, i), formal(fn, i)
        if is_cont(xt): r += [(z3.Implies(nn(q), nn(o)), 'reference parameter'), (sz(o) >= sz(q), 'reference parameter')]
        elif is_int(xt): r += [(o >= q, 'reference parameter')]
    t = parse(fn['rt'])
    if not (t.name == 'void' and not t.is_ptr()) and not fn.get('ctor') and not is_bool(t.noref()):
        x = formal_ret(fn)
        if is_cont(t.noref()): r += [(nn(x), 'elements')]
        elif is_nullable(t.noref()): r += [(x != 0, 'result not null')]
    return r
def ensure(ex, outs, extra=None):
    """postconditions that hold at every return; extra: candidates to check, the ones that hold are left in it"""
    fn = ex.fn
    t = parse(fn['rt'])
    void = t.name == 'void' and not t.is_ptr()
    rets = []
    for s, v in ex.rets:
        if not s.alive: continue
        sub = []
        if not void:
            if v is None or v.e is None or fn.get('ctor'): pass
            else: sub.append((formal_ret(fn), ex.conv(v, t.noref())))
        for i, k in outs:
            x = s.env.get(k)
            if x is not None and x.k == 'alias': x = ex.read(s, x.x, x.t)
            if x is not None and x.e is not None: sub.append((formal_out(fn, i), ex.conv(x, x.t)))
        rets.append((s, sub))
    if not rets: return [(z3.BoolVal(False), 'does not return')] if not fn.get('ctor') and ex.rets == [] else []
    ens = []
    def always(f):
        for s, sub in rets:
            if not all(any(a.decl().name() == n for a, _ in sub) for n in consts(f) if n == 'ret' or n.startswith('out')): return False
            if not ex.prove(s.pc, z3.substitute(f, *sub)): return False
        return True
    if extra: extra[:] = [(f, why) for f, why in extra if always(f)]; ens += extra
    # the cases
    ds = []
    for s, sub in rets:
        c = [p for p in s.pc if closed(p) and weight(p, 60) <= 60]
        c += [a == e for a, e in sub if closed(e) and weight(e, 60) <= 60]
        ds.append(z3.And(*c) if c else z3.BoolVal(True))
    d = z3.simplify(z3.Or(*ds))
    if not z3.is_true(d) and weight(d, 220) <= 220: ens.append((d, 'the cases of its returns'))
    # the atoms
    atoms = [a for a in ex.atoms.values() if closed(a) and weight(a, 30) <= 30 and fvars(a) and fvars(a) != ['this']][:24]
    for i, p in enumerate(fn['params']):
        pt = parse(p['t'])
        if is_nullable(pt.noref()) and not outptr(pt):
            a = formal(fn, i) != 0
            if not any(a.eq(x) for x in atoms): atoms.append(a)
    tgt = []
    if not void and not fn.get('ctor'):
        r = formal_ret(fn)
        tt = t.noref()
        if z3.is_bool(r): tgt += [r, z3.Not(r)]
        else:
            if not is_cont(tt):
                f = r != 0
                if always(f): ens.append((f, 'result not null'))
                else: tgt += [f, r == 0]
            if is_int(tt) and always(r >= 0): ens.append((r >= 0, 'result not negative'))
            if is_cont(tt):
                for f in (ex.allnn(r), ex.uf('size', [r]) > 0):
                    if always(f): ens.append((f, 'elements'))
                tgt.append(ex.uf('size', [r]) > 0)
    for g in tgt:
        for a in atoms:
            for b in (a, z3.Not(a)):
                f = z3.Implies(g, b)
                if always(f): ens.append((f, 'implied by the result'))
    for i, k in outs:
        o = formal_out(fn, i)
        p = formal(fn, i)
        if z3.is_bool(o): continue
        x = parse(fn['params'][i]['t'])
        xt = x.pointee() if outptr(x) else x.noref()
        cs = [o != 0]
        if is_cont(xt): cs = [z3.Implies(ex.allnn(p), ex.allnn(o)), ex.uf('size', [o]) >= ex.uf('size', [p])]
        elif is_int(xt): cs = [o >= 0, o >= p]
        else: cs.append(z3.Implies(p != 0, o != 0))
        for f in cs:
            if always(f): ens.append((f, 'reference parameter'))
        if tgt and not is_cont(xt):
            for g in tgt[:2]:
                f = z3.Implies(g, o != 0)
                if always(f): ens.append((f, 'reference parameter'))
    return ens

def verify(w, uid, seconds=120, scc=(), assumed=None):
    """contract and obligations of one function; the contract is left in w.contract"""
    fn = w.f[uid]
    t0 = time.time()
    old = w.contract.get(uid)
    ct = Contract()
    if old: ct.req = list(old.req)
    if assumed is not None: ct.ens = list(assumed)
    w.contract[uid] = ct
    name = fn['n'].split('::')[-1]
    entry = (fn.get('method') and not fn.get('static') and name in w.tab.ENTRY) or uid in w.addr
    q = 0
    try:
        for r in range(MAXREQ):
            ex, outs = execute(w, uid, seconds)
            q += ex.queries
            bad = [o for o in ex.obls if not o.ok]
            new = []
            if not entry:
                for o in bad:
                    if o.kind == 'requires' and o.callee in scc: continue
                    x = lift(ex, o)
                    if x is not None and not any(x[0].eq(y) for y, _ in ct.req + new): new.append(x)
            if not new: break
            ct.req += new
        ct.ens = ensure(ex, outs, assumed)
        ct.pure = not ex.impure
        q += ex.queries
        err = None
    except (Giveup, RecursionError) as e:
        ex, bad, err = None, [], f'gave up: {e}'
    lam = ([], []) if ex is None else (sorted(x for x in ex.lamran if x), sorted(x for x in ex.lamseen - ex.lamran if x))
    res = {'uid': uid, 'lambdas_run': lam[0], 'lambdas_not_run': lam[1], 'n': fn['n'], 'file': fn['file'], 'line': fn['line'], 'entry': bool(entry), 'seconds': round(time.time() - t0, 2), 'queries': q, 'unknown': 0 if ex is None else ex.unknown,
           'req': [f'{why}: {z3.simplify(r).sexpr()[:300]}' for r, why in ct.req], 'nens': len(ct.ens), 'err': err,
           'obls': [] if ex is None else [{'ok': bool(o.ok), 'kind': o.kind, 'why': o.why, 'line': o.line, 'file': o.file} for o in ex.obls],
           'unchecked': [] if ex is None else sorted(ex.unchecked), 'used': [] if ex is None else sorted(ex.used)}
    return res

# ---------------------------------------------------------------- all functions
def dumpc(ct):
    def one(l):
        r = []
        for e, why in l:
            s = z3.Solver(); s.add(e); r.append((s.sexpr(), why))
        return r
    return {'req': one(ct.req), 'ens': one(ct.ens), 'pure': ct.pure}
def loadc(d):
    c = Contract(); c.pure = d['pure']
    def one(l):
        r = []
        for s, why in l:
            v = z3.parse_smt2_string(s)
            r.append((z3.And(*v) if len(v) != 1 else v[0], why))
        return r
    c.req, c.ens = one(d['req']), one(d['ens'])
    return c
def comp(w, c, seconds):
    """one strongly connected component"""
    res = {}
    rec = len(c) > 1 or c[0] in w.calls[c[0]][0]
    for u in c: w.contract.pop(u, None)
    if not rec:
        res[c[0]] = verify(w, c[0], seconds)
        return res
    # recursion: postconditions are assumed of the calls within and proved of the bodies, until what is assumed is proved
    assumed = {u: seeds(w.f[u]) for u in c}
    for u in c: w.contract[u] = Contract(); w.contract[u].ens = list(assumed[u])
    proved = {}
    for r in range(8):
        before = {u: (len(w.contract[u].req), len(assumed[u])) for u in c}
        for u in c:
            res[u] = verify(w, u, seconds, c, assumed[u])
            if res[u]['err']: assumed[u] = []
            proved[u] = w.contract[u].ens if not res[u]['err'] else []
            w.contract[u].ens = list(assumed[u])
        if all(before[u] == (len(w.contract[u].req), len(assumed[u])) for u in c): break
    else:
        for u in c: proved[u] = []; res[u]['err'] = 'gave up: the postconditions of the recursion'
    for u in c: w.contract[u].ens = proved[u]
    return res
def run(w, only=None, jobs=8, seconds=100, progress=None):
    """every function of /repo, callees first, in parallel waves"""
    import multiprocessing as mp
    comps = w.order()
    level = {}
    for i, c in enumerate(comps):
        l = 0
        for u in c:
            for v in w.calls[u][0]:
                if v not in c and v in level: l = max(l, level[v] + 1)
        for u in c: level[u] = l
    waves = {}
    for c in comps: waves.setdefault(level[c[0]], []).append(c)
    results = {}
    for l in sorted(waves):
        cs = [c for c in waves[l] if only is None or any(u in only for u in c)]
        k = max(1, len(cs) // (jobs * 6))
        global _W
        _W = w, seconds
        with mp.get_context('fork').Pool(min(jobs, len(cs)) or 1) as p:
            for out in p.imap_unordered(_job, cs, chunksize=k):
                for u, (r, c, nm) in out.items():
                    results[u] = r; w.contract[u] = loadc(c); w.names.update({k: (q, parse(t)) for k, (q, t) in nm.items()})
        if progress: progress(l, len(cs))
    # the body of a lambda is checked where it runs, with what is known there
    ran = {(r['file'], l) for r in results.values() for l in r['lambdas_run']}
    for u in [u for u, r in results.items() if re.search(r'\(anonymous class\)::operator\(\)|\(lambda at ', r['n'] + u) and (r['file'], r['line']) in ran]: del results[u]
    for r in results.values():
        for l in r['lambdas_not_run']:
            if (r['file'], l) not in ran: r['unchecked'].append('a lambda that is only stored')
    return results
def _job(c):
    w, seconds = _W
    t0 = time.time()
    if os.environ.get('SAFETY_LOG'): open(os.environ['SAFETY_LOG'], 'a').write(f'start {c[0]}\n')
    r = comp(w, c, seconds)
    nm = {k: (q, t.raw) for k, (q, t) in w.names.items()}
    out = {u: (r[u], dumpc(w.contract[u]), nm if u == c[0] else {}) for u in c}
    for u in c: w.contract.pop(u, None)
    if os.environ.get('SAFETY_LOG'): open(os.environ['SAFETY_LOG'], 'a').write(f'done {c[0]} {time.time() - t0:.1f} {sum(r[u]["queries"] for u in c)}\n')
    return out
