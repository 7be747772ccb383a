"""Function body translator (see translate.py)."""
import re
from .ctypes_ import parse, T, INTS, STRS, VECS, MAPS, SETS
from .translate import V, Fn, Loop, Unsupported, sane, strip_casts
from . import models as M

TBOOL, TINT, TSIZE, TVOID = parse('bool'), parse('int'), parse('unsigned long'), parse('void')
TSTR = parse('std::basic_string<char>')

class NeedExec(Unsupported):
    """an operand of && || ?: has effects: evaluate it under a real branch"""

class FnTr:
    def __init__(self, prog, fn, contract):
        self.p, self.fn, self.c = prog, fn, contract
        self.out = []           # list of [indent, text, line]
        self.ind = 1
        self.env = {}
        self.used = set()
        self.tmp = 0
        self.loopno = 0
        self.line = fn['line']
        self.file = fn['file']
        self.guards = []        # path condition inside pure expressions
        self.pure = 0           # >0: inside spec-closure: no statements allowed
        self.loopstack = []
        self.fnstack = [fn['key']]
        self.topfn = fn; self.istail = False
        self.tailnext = False   # the next statement is the last one that is executed
        self.tailnode = None
        self.exstack = []
        self.retmode = [None]   # per inlined function: None (real return) or (retvar, donevar)
        self.loops = list(contract.loops)
        self.locals_left = dict(contract.locals)
        self.mutroots = set()
        self.claimed = {}

    # ---------- emission
    def emit(self, s, line=None):
        if self.pure: raise Unsupported(f'statement inside a pure expression: {s[:80]} ({self.file}:{self.line})')
        self.out.append((self.ind, s, line or self.line))
        for k, h in self.c.hints.items():
            if k.startswith('after:') and k[6:] in s and not s.startswith('proof { /*h*/'):
                self.out.append((self.ind, f'proof {{ /*h*/ {self.p.text_sub(h)} }}', line or self.line))

    def assert_(self, cond, why):
        if cond in ('true',): return
        if self.pure:
            self.p.unchecked.add(f'{self.fn["n"]}: {why} inside a closure')
            return
        g = ' && '.join(f'({x})' for x in self.guards)
        self.p.count_asserts += 1
        self.emit(f'assert({g + " ==> " if g else ""}({cond})); // RT: {why}')

    def fresh(self, base='t'):
        self.tmp += 1
        n = f'{base}{self.tmp}_'
        return n

    def name(self, base):
        n = sane(base)
        k = n
        i = 1
        while k in self.used or re.fullmatch(r'[a-z]+\d+_', k):
            i += 1; k = f'{n}_{i}'
        self.used.add(k)
        return k

    def bind(self, v):
        """bind V to a temp so that later mutations do not change it"""
        if re.fullmatch(r'-?\d+int|true|false|lit_\w+\(\)|[A-Za-z]+\d+_', v.e): return v
        t = self.fresh()
        self.emit(f'let ghost {t} = {v.e};')
        return V(t, v.t, None, v.cont, v.k, v.extra)

    # ---------- lvalues
    def cur(self, lv):
        k = lv[0]
        if k == 'ofield': raise Unsupported('nested assignment to a field of an opaque object')
        if k == 'var': return lv[1]
        if k == 'field': return f'{self.cur(lv[1])}.{lv[2]}'
        if k == 'idx': return f'{self.cur(lv[1])}[{lv[2]}]'
        if k == 'map': return f'{self.cur(lv[1])}[{lv[2]}]'
        if k == 'tup': return f'{self.cur(lv[1])}.{lv[2]}'
        if k == 'opt': return f'{self.cur(lv[1])}->0'
        raise Unsupported('lvalue ' + k)

    def root(self, lv):
        if lv[0] == 'ofield': return '?'
        while lv[0] != 'var': lv = lv[1]
        return lv[1]

    def assign(self, lv, val):
        k = lv[0]
        if k == 'ofield':
            self.p.ext_used.add(lv[1] + '=')
            self.p.ext[lv[1] + '='](self, lv[2], [V(val, TINT)], TVOID)
            return
        if k == 'var':
            if lv[1] not in self.mutroots: raise Unsupported(f'assignment to immutable {lv[1]} ({self.file}:{self.line})')
            self.emit(f'proof {{ {lv[1]} = {val}; }}')
            return
        base = self.cur(lv[1])
        if k == 'field':
            r, fs = lv[3]
            parts = []
            for f in fs():
                parts.append(f'{f}: {val}' if f == lv[2] else f'{f}: {base}.{f}')
            self.assign(lv[1], f'{r} {{ ' + ', '.join(parts) + ' }')
        elif k == 'idx': self.assign(lv[1], f'{base}.update({lv[2]}, {val})')
        elif k == 'map': self.assign(lv[1], f'{base}.insert({lv[2]}, {val})')
        elif k == 'tup':
            n = lv[3]
            self.assign(lv[1], '(' + ', '.join(val if str(i) == str(lv[2]) else f'{base}.{i}' for i in range(n)) + ')')
        elif k == 'opt': self.assign(lv[1], f'Some({val})')
        else: raise Unsupported('assign ' + k)

    def field_v(self, base, fname):
        """base: V of kind rec; returns V"""
        rec = self.p.rec_of(base.t)
        ft = self.p.field(rec, fname)
        n = sane(fname)
        lv = None
        if base.lv:
            p = self.p
            lv = ('field', base.lv, n, (p.recname(rec), lambda: [sane(x[0]) for x in p.all_fields(rec)]))
        return V(f'{base.e}.{n}', ft, lv)

    # ---------- conversions
    def to_bool(self, v):
        k = self.p.kind(v.t)
        if v.k == 'mapit': raise Unsupported('map iterator to bool')
        if k == 'bool': return v.e
        if k == 'int' or k == 'ptr' or k == 'opaque' or k == 'iter': return f'({v.e} != 0)'
        if k == 'cstr' or k == 'opt': return f'({v.e} is Some)'
        if k == 'rec': return 'true'
        raise Unsupported(f'to_bool {v.t.raw}')

    def to_str(self, v):
        k = self.p.kind(v.t)
        if k == 'str': return v.e
        if k == 'cstr':
            m = re.fullmatch(r'Some\((.*)\)', v.e)
            if m: return m.group(1)
            self.assert_(f'{v.e} is Some', 'null C string converted to a string')
            return f'{v.e}->0'
        if k == 'opaque' and v.t.name == 'llvm::Twine': return v.e
        raise Unsupported(f'to_str {v.t.raw} {k}')

    # ---------- expressions
    def exprs(self, nodes):
        """evaluate several operands; bind earlier ones when later ones have effects"""
        res = []
        for n in nodes:
            if n is None: res.append(None); continue
            before = len(self.out)
            v = self.ex(n)
            if any(not o[1].startswith('assert(') for o in self.out[before:]):
                # rebind: earlier values may be mutated by these statements
                tail = self.out[before:]
                del self.out[before:]
                for i, r in enumerate(res):
                    if r is not None and r.k not in ('lambda', 'fnref', 'backins') and r.lv is None:
                        res[i] = self.bind(r)
                self.out += tail
            res.append(v)
        return res

    def ex(self, n):
        k = n['k']
        old = self.line
        if n.get('l'): self.line = n['l']
        try:
            h = getattr(self, 'e_' + k, None)
            if h is None: raise Unsupported(f'expression {k} ({self.file}:{self.line})')
            self.exstack.append(n)
            return h(n)
        finally:
            if self.exstack and self.exstack[-1] is n: self.exstack.pop()
            self.line = old

    def e_IntegerLiteral(self, n): return V(f'{n["v"]}int', parse(n['t']))
    def e_CharacterLiteral(self, n): return V(f'{n["v"]}int' if not n['v'].startswith('-') else f'({n["v"]}int)', parse(n['t']))
    def e_CXXBoolLiteralExpr(self, n): return V('true' if n['v'] else 'false', TBOOL)
    def e_CXXNullPtrLiteralExpr(self, n): return V('0int', parse('std::nullptr_t'))
    def e_GNUNullExpr(self, n): return V('0int', parse('std::nullptr_t'))
    def e_UnaryExprOrTypeTraitExpr(self, n): return V(f'{n["v"]}int', TSIZE)
    def e_StringLiteral(self, n):
        if n.get('wide'): raise Unsupported('wide string')
        return V(f'Some({self.p.lit(n["bytes"])})', parse('const char *'), k='slit')
    def e_DefaultArg(self, n): return self.ex(n['e'])
    def e_ImplicitValueInitExpr(self, n):
        t = parse(n['t']); return V(self.p.default(t), t)
    def e_CXXScalarValueInitExpr(self, n):
        t = parse(n['t']); return V(self.p.default(t), t)

    def cast(self, n):
        ck = n['ck']
        t = parse(n['t'])
        if ck == 'ToVoid':
            return V('()', TVOID)
        if ck in ('LValueToRValue', 'NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'LValueBitCast'):
            return self.ex(n['e'])
        v = self.ex(n['e'])
        if ck == 'ArrayToPointerDecay':
            return V(v.e, t, v.lv, v.cont, v.k)
        if ck in ('IntegralCast',):
            return self.intcast(v, t)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast'):
            if self.p.kind(v.t) == 'rec': return v
            return V(v.e, t, v.lv, v.cont, v.k)
        if ck == 'NullToPointer':
            if self.p.kind(t) == 'cstr': return V('None::<Str>', t)
            return V('0int', t)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return V(self.to_bool(v), TBOOL)
        raise Unsupported(f'cast {ck} ({self.file}:{self.line})')
    e_ImplicitCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = cast

    def intcast(self, v, t):
        ks, kd = self.p.kind(v.t), self.p.kind(t)
        if ks == 'bool': return V(f'(if {v.e} {{ 1int }} else {{ 0int }})', t)
        if kd == 'bool': return V(self.to_bool(v), t)
        src, dst = INTS.get(v.t.name), INTS.get(t.name)
        if dst and src and not dst[1] and src[1] and self.c.nowrap:
            m = re.fullmatch(r'(\d+)int', v.e)
            if not m:
                if src[0] == 8:  # char -> unsigned char: explicit model
                    return V(f'(if {v.e} < 0 {{ {v.e} + {2**dst[0]} }} else {{ {v.e} }})', t)
                self.assert_(f'{v.e} >= 0', 'signed to unsigned conversion keeps the value')
        if dst and src and src[0] == 64 and dst[0] == 32 and not re.fullmatch(r'\d+int', v.e):
            return V(f'to_{"s" if dst[1] else "u"}32({v.e})', t)
        if dst and dst[0] == 8 and (not src or src[0] > 8):
            if not re.fullmatch(r'\d+int', v.e): 
                return V(f'to_{"s" if dst[1] else "u"}8({v.e})', t)
        return V(v.e, t)

    def e_DeclRefExpr(self, n):
        dk = n.get('dk')
        t = parse(n['t'])
        if dk == 'enum':
            q = n.get('q')
            return V(f'{n["v"]}int' if not n['v'].startswith('-') else f'({n["v"]}int)', t)
        if dk == 'fn':
            return V('?', t, k='fnref', extra=n['fn'])
        if n['id'] in self.env: return self.env[n['id']]() 
        if dk == 'static' and n['n'] in self.c.statics: raise Unsupported('static')
        if dk == 'global':
            q = n['q']
            if n['n'] in self.c.statics: return V(n['n'], t.noref(), ('var', n['n']))
            if q in self.p.globals_:
                return V(self.p.globals_[q], t)
            if q.endswith('::npos') and q.startswith('std::basic_string'): return V('npos()', t)
            if q.startswith('std::ranges::') or q.startswith('std::'):
                return V('?', t, k='cpo', extra=q)
            gv = self.p.unit.vars.get(q)
            if gv and 'init' in gv and ('const' in gv['t']):
                sub = FnTr(self.p, self.fn, self.c)
                sub.pure = 1
                return sub.ex(gv['init'])
            if t.const:
                return V(f'{self.p.uninterp_fn("g_" + q, [], self.p.vt(t))}()', t)
        raise Unsupported(f'reference to {dk} {n["n"]} ({self.file}:{self.line})')

    def e_CXXThisExpr(self, n):
        return self.env['this']()

    def e_MemberExpr(self, n):
        t = parse(n['t'])
        if n.get('dk') == 'global':
            if n['q'] in self.p.globals_: return V(self.p.globals_[n['q']], t)
            gv = self.p.unit.vars.get(n['q'])
            if gv and 'init' in gv and 'const' in gv['t']:
                sub = FnTr(self.p, self.fn, self.c); sub.pure = 1
                return sub.ex(gv['init'])
            raise Unsupported(f'global {n["q"]}')
        b = self.ex(n['e'])
        k = self.p.kind(b.t)
        if b.k == 'mapit':
            kk = b.e
            self.assert_(f'{kk} is Some', 'dereference of end iterator')
            if n['n'] == 'first': return V(f'{kk}->0', t)
            if n['n'] == 'second':
                lv = ('map', b.cont.lv, f'{kk}->0') if b.cont.lv else None
                return V(f'{b.cont.e}[{kk}->0]', t, lv)
        if b.k == 'insres' and n['n'] == 'first':
            o, kt = b.extra
            return V(f'Some({b.e}.0)', t, None, V(self.cur(o.lv), o.t, o.lv), 'mapit', kt)
        if k == 'iter': b = self.deref(b); k = self.p.kind(b.t)
        if k == 'opt' and n.get('arrow'): b = self.deref(b); k = self.p.kind(b.t)
        if k == 'pair':
            i = 0 if n['n'] == 'first' else 1
            return V(f'{b.e}.{i}', t, ('tup', b.lv, i, 2) if b.lv else None)
        if k == 'rec': return self.field_v(b, n['n'])
        key = n['rec'] + '::' + n['n']
        if key in self.p.ext: return self.ext_model(key, b, [], t)
        if n.get('dk') == 'field':
            f = self.p.uninterp_fn('fld_' + key, [self.p.vt(b.t)], self.p.vt(t))
            self.p.assumed_pure.add(key)
            return V(f'{f}({b.e})', t, ('ofield', key, b) if key + '=' in self.p.ext else None)
        raise Unsupported(f'member {key} ({self.file}:{self.line})')

    def deref(self, v):
        k = self.p.kind(v.t)
        if v.k == 'mapit':
            return V(v.e, v.t, v.lv, v.cont, 'mapit', v.extra)
        if v.k == 'vecit' or (k == 'iter' and v.cont is not None):
            c = v.cont
            self.assert_(f'0 <= {v.e} < {c.e}.len()', 'iterator dereference in range')
            kt = self.p.kind(c.t)
            et = c.t.args[0] if kt == 'vec' else parse('char')
            return V(f'{c.e}[{v.e}]', et, ('idx', c.lv, v.e) if c.lv else None)
        if k == 'opt':
            self.assert_(f'{v.e} is Some', 'optional has a value')
            return V(f'{v.e}->0', v.t.args[0], ('opt', v.lv) if v.lv else None)
        if k == 'rec': return V(v.e, T(self.p.rec_of(v.t)), v.lv)
        if k == 'ptr':
            if self.c.nullcheck: self.assert_(f'{v.e} != 0', 'pointer not null')
            if v.t.is_ptr(): return V(v.e, v.t.pointee(), k='deref')
            return V(v.e, v.t.args[0] if v.t.args else v.t, k='deref')
        raise Unsupported(f'deref {v.t.raw} k={v.k} ({self.file}:{self.line})')

    def e_UnaryOperator(self, n):
        op = n['op']
        t = parse(n['t'])
        if op == '*':
            v = self.ex(n['c'][0])
            return V(v.e, t) if v.k == 'valptr' else self.deref(v)
        if op == '&':
            v = self.ex(n['c'][0])
            return V(v.e, t, v.lv, v.cont, v.k, v.extra)
        v = self.ex(n['c'][0])
        if op == '!': return V(f'!({self.to_bool(v)})', TBOOL)
        if op == '-':
            m = re.fullmatch(r'(\d+)int', v.e)
            return V(f'(-{v.e})', t)
        if op == '+': return V(v.e, t)
        if op in ('++', '--'):
            if self.p.kind(v.t) not in ('int', 'iter'): raise Unsupported('++ on ' + v.t.raw)
            if v.lv is None: raise Unsupported('++ on a value')
            o = None
            if not n['prefix']:
                o = self.fresh(); self.emit(f'let ghost {o} = {v.e};')
            if op == '--' and v.t.name in INTS and not INTS[v.t.name][1]: self.assert_(f'{v.e} > 0', 'unsigned decrement does not wrap')
            self.assign(v.lv, f'{v.e} {op[0]} 1')
            return V(o or v.e, t, v.lv if n['prefix'] else None, v.cont, v.k)
        if op == '~':
            return V(f'{self.p.uninterp_fn("bitnot", ["int"], "int")}({v.e})', t)
        raise Unsupported('unary ' + op)

    def cond2(self, a, nb, is_and):
        """short-circuit: a is V, nb node"""
        ae = self.to_bool(a)
        g = ae if is_and else f'!({ae})'
        gs = self.guards
        self.guards = gs + [g]
        save = self.out
        self.out = []
        try:
            b = self.to_bool(self.ex(nb))
            sub = self.out
        except NeedExec:
            sub = [(0, 'effect', 0)]
        finally:
            self.out = save
            self.guards = gs
        op = '&&' if is_and else '||'
        if all(s[1].startswith('assert(') for s in sub):
            self.out += sub
            return V(f'({ae} {op} {b})', TBOOL)
        if self.pure: raise Unsupported('effects in pure expression')
        # redo without guard, under a real branch
        t = self.fresh('b')
        self.mutroots.add(t)
        self.emit(f'let ghost mut {t}: bool = {ae};')
        self.emit(f'if br(Ghost({t if is_and else "!" + t})) {{')
        self.ind += 1
        gsave, self.guards = self.guards, []
        b = self.to_bool(self.ex(nb))
        self.guards = gsave
        self.emit(f'proof {{ {t} = {b}; }}')
        self.ind -= 1
        self.emit('}')
        return V(t, TBOOL)

    def e_BinaryOperator(self, n):
        op = n['op']
        t = parse(n['t'])
        if op in ('&&', '||'):
            return self.cond2(self.ex(n['c'][0]), n['c'][1], op == '&&')
        if op == ',':
            self.ex(n['c'][0]); return self.ex(n['c'][1])
        if op == '=':
            a, b = None, self.ex(n['c'][1])
            a = self.ex(n['c'][0])
            return self.do_assign(a, b, n['c'][0])
        a, b = self.exprs(n['c'])
        return self.binop(op, a, b, t)

    def do_assign(self, a, b, node=None):
        if a.lv is None: raise Unsupported(f'assignment target ({self.file}:{self.line})')
        e = self.coerce(b, a.t)
        self.assign(a.lv, e)
        if b.cont is not None and node is not None and strip_casts(node).get('k') == 'DeclRefExpr':
            nm = a.e
            i = strip_casts(node)['id']
            self.env[i] = lambda a=a, b=b: V(a.e, a.t, a.lv, b.cont, b.k)
        return a

    def coerce(self, v, t):
        """value of v as C++ type t (verus text)"""
        kd, ks = self.p.kind(t), self.p.kind(v.t)
        if v.k == 'mapit': return v.e
        if kd == ks or kd.startswith('map:'): return v.e
        if kd == 'str': return self.to_str(v)
        if kd == 'bool': return self.to_bool(v)
        if kd == 'opt' and ks != 'opt':
            return f'Some({self.coerce(v, t.args[0])})'
        if kd == 'cstr' and ks == 'str': return f'Some({v.e})'
        return v.e

    def binop(self, op, a, b, t):
        ka, kb = self.p.kind(a.t), self.p.kind(b.t)
        if op in ('==', '!='):
            if a.k == 'mapit' or b.k == 'mapit':
                return V(f'({a.e} {op} {b.e})', TBOOL)
            if ka == 'cstr' and kb == 'ptr': return V(f'({a.e} is {"None" if op == "==" else "Some"})', TBOOL)
            if ka == 'rec' and kb in ('ptr', 'rec'):
                if b.e == '0int': return V('false' if op == '==' else 'true', TBOOL)
                raise Unsupported('record pointer comparison')
            return V(f'({a.e} {op} {b.e})', TBOOL)
        if op in ('<', '>', '<=', '>='):
            return V(f'({a.e} {op} {b.e})', TBOOL)
        if op == '-' and a.k == 'cptr' and b.k == 'cptr': return V(f'({a.e} - {b.e})', TINT)
        if op in ('+', '-', '*'):
            if a.cont is not None and op in '+-' :
                if b.cont is not None: return V(f'({a.e} - {b.e})', t)
                return V(f'({a.e} {op} {b.e})', a.t, None, a.cont, a.k)
            if op == '-' and t.name in INTS and not INTS[t.name][1] and self.c.nowrap:
                self.assert_(f'{a.e} >= {b.e}', 'unsigned subtraction does not wrap')
            return V(f'({a.e} {op} {b.e})', t)
        if op in ('/', '%'):
            self.assert_(f'{b.e} != 0', 'division by zero')
            if t.name in INTS and INTS[t.name][1] and not re.fullmatch(r'\d+int', a.e):
                if not re.fullmatch(r'\(?\d+int\)?', b.e): self.assert_(f'!({b.e} == -1 && {a.e} == {"-2147483648" if t.name == "int" else "-9223372036854775808"})', 'division does not overflow')
                return V(f'{"c_div" if op == "/" else "c_mod"}({a.e}, {b.e})', t)
            return V(f'({a.e} {op} {b.e})', t)
        if op in ('&', '|', '^', '<<', '>>'):
            nm = {'&': 'bit_and', '|': 'bit_or', '^': 'bit_xor', '<<': 'bit_shl', '>>': 'bit_shr'}[op]
            if ka == 'bool': return V({'&': f'({a.e} && {b.e})', '|': f'({a.e} || {b.e})'}[op], TBOOL)
            return V(f'{nm}({a.e}, {b.e})', t)
        raise Unsupported('binary ' + op)

    def e_CompoundAssignOperator(self, n):
        a, b = self.exprs(n['c'])
        op = n['op'][:-1]
        if self.p.kind(a.t) == 'bool':
            if op in '|&':
                bb = self.to_bool(b)
                self.assign(a.lv, f'({a.e} {op}{op} {bb})')
                return a
        r = self.binop(op, a, b, a.t)
        self.assign(a.lv, r.e)
        return a

    def e_ConditionalOperator(self, n):
        c = self.to_bool(self.ex(n['c'][0]))
        t = parse(n['t'])
        before = self.out
        self.out = []
        gs = self.guards
        a = b = None
        self.guards = gs + [c]
        try: a = self.ex(n['c'][1])
        except NeedExec: self.out = [(0, 'effect', 0)]
        finally: self.guards = gs
        oa, self.out = self.out, []
        self.guards = gs + [f'!({c})']
        try: b = self.ex(n['c'][2])
        except NeedExec: self.out = [(0, 'effect', 0)]
        finally: self.guards = gs
        ob, self.out = self.out, before
        if all(s[1].startswith('assert(') for s in oa + ob):
            self.out += oa + ob
            if a.k == 'mapit' or b.k == 'mapit': raise Unsupported('?: on map iterators')
            ea, eb = self.coerce(a, t), self.coerce(b, t)
            if self.p.kind(t) == 'void': return V('()', t)
            return V(f'(if {c} {{ {ea} }} else {{ {eb} }})', t, None, a.cont, a.k if a.cont else None)
        if self.pure: raise Unsupported('effects in pure ?:')
        tv = self.fresh('c'); self.mutroots.add(tv)
        cc = self.fresh(); self.emit(f'let ghost {cc} = {c};')
        vt = self.p.vt(t)
        self.emit(f'let ghost mut {tv}: {vt} = arbitrary();')
        for i, (pre, node) in enumerate(((f'if br(Ghost({cc})) {{', n['c'][1]), ('} else {', n['c'][2]))):
            self.emit(pre); self.ind += 1
            g, self.guards = self.guards, []
            v = self.ex(node)
            self.guards = g
            self.emit(f'proof {{ {tv} = {self.coerce(v, t)}; }}')
            self.ind -= 1
        self.emit('}')
        return V(tv, t)

    def e_ArraySubscriptExpr(self, n):
        a, i = self.exprs(n['c'])
        t = parse(n['t'])
        k = self.p.kind(a.t)
        if k == 'cstr':
            s = self.to_str(a)
            self.assert_(f'0 <= {i.e} <= {s}.len()', 'C string index in range')
            return V(f'cstr_at({s}, {i.e})', t)
        if k in ('vec1', 'ptr') or a.t.arr is not None:
            self.assert_(f'0 <= {i.e} < {a.e}.len()', 'array index in range')
            return V(f'{a.e}[{i.e}]', t, ('idx', a.lv, i.e) if a.lv else None)
        raise Unsupported(f'subscript on {a.t.raw}')

    def e_InitListExpr(self, n):
        t = parse(n['t'])
        k = self.p.kind(t)
        if k == 'rec': return self.rec_init(t, n)
        if k == 'opaque' and not n['c']: return V('0int', t)
        vs = self.exprs(n['c'])
        if k in ('vec', 'vec1') or t.arr is not None:
            et = t.args[0] if t.arr is None else T(t.name, t.args, t.const, t.quals)
            return V(f'Seq::<{self.p.vt(et)}>::empty()' + ''.join(f'.push({self.coerce(v, et)})' for v in vs), t)
        if k in ('int', 'ptr', 'bool', 'str', 'cstr'):
            if not vs: return V(self.p.default(t), t)
            return V(self.coerce(vs[0], t), t)
        if k == 'pair':
            return V('(' + ', '.join(self.coerce(v, a) for v, a in zip(vs, t.args)) + ')', t)
        raise Unsupported(f'init list {t.raw}')

    def rec_init(self, t, n):
        rec = self.p.rec_of(t)
        allf = []
        for base in self.p.rec_chain(rec): allf += self.p.unit.records[base]['fields']
        used = self.p.recfields.setdefault(rec, {})
        vals = {}
        vs = self.exprs(n['c'])
        if len(vs) > len(allf): raise Unsupported('init list with bases')
        for f, v in zip(allf, vs):
            if f['n'] in used: vals[f['n']] = self.coerce(v, parse(f['t']))
        return self.rec_build(t, vals)

    def rec_build(self, t, vals):
        rec = self.p.rec_of(t)
        parts = []
        for fnm, ft, init in self.p.all_fields(rec):
            parts.append(f'{sane(fnm)}: {vals.get(fnm) or self.p.default(ft)}')
        for fnm, ty in self.p.recfields.get(rec, {}).items():
            if ty: raise Unsupported('ghost field construct')
        if not parts: return V(f'arbitrary::<{self.p.vt(t)}>()', t)
        return V(f'{self.p.recname(rec)} {{ ' + ', '.join(parts) + ' }', t)

    def e_CXXStdInitializerListExpr(self, n):
        return self.ex(n['c'][0])

    def e_LambdaExpr(self, n):
        env = self.env
        snap = {}
        for c in n['caps']:
            if c.get('this'): continue
            if not c.get('byref') and c['id'] in env and not self.pure:
                v = env[c['id']]()
                snap[c['id']] = v
        return V('?lambda', parse(n['t']), k='lambda', extra=(n, snap, self))

    # closures ------------------------------------------------------------
    def apply_pure(self, f, args):
        """apply lambda / function reference to V args, giving a pure V"""
        if f.k == 'lambda':
            n, snap, _ = f.extra
            saved = dict(self.env)
            try:
                for i, v in snap.items(): self.env[i] = (lambda v=v: v)
                for p, a in zip(n['params'], args):
                    pt = parse(p['t'])
                    if 'auto' in p['t'] or p['t'].startswith('type-parameter') : pt = a.t
                    self.env[p['id']] = (lambda a=a, pt=pt: V(a.e, a.t, None, a.cont, a.k))
                return self.pure_body(n['body'], parse(n['rt']))
            finally:
                self.env = saved
        if f.k == 'fnref':
            return self.call_fn(f.extra, None, args, parse(f.extra['rt']), None)
        raise Unsupported(f'apply {f.k}')

    def closure(self, f, ets):
        """spec closure text"""
        names = [self.fresh('x') for _ in ets]
        self.pure += 1
        try:
            r = self.apply_pure(f, [V(nm, et) for nm, et in zip(names, ets)])
            e = r.e
        finally:
            self.pure -= 1
        return '|' + ', '.join(f'{nm}: {self.p.vt(et)}' for nm, et in zip(names, ets)) + f'| {e}', r

    def pure_body(self, body, rt):
        """translate statement list as an expression"""
        stmts = body['c'] if body['k'] == 'CompoundStmt' else [body]
        return V(self.pure_stmts(stmts, rt), rt)

    def pure_stmts(self, stmts, rt):
        if not stmts: raise Unsupported('pure body without return')
        s, rest = stmts[0], stmts[1:]
        k = s['k']
        if k == 'ReturnStmt':
            if 'e' not in s: return '()'
            v = self.ex(s['e'])
            if v.k == 'lambda': raise Unsupported('returns lambda')
            return self.coerce(v, rt)
        if k == 'CompoundStmt': return self.pure_stmts(s['c'] + rest, rt)
        if k == 'NullStmt' or self.noop(s): return self.pure_stmts(rest, rt)
        if k == 'DeclStmt':
            pre = ''
            for d in s['decls']:
                if d['k'] != 'VarDecl': continue
                if 'init' not in d: raise Unsupported('uninitialised local in pure body')
                v = self.ex(d['init'])
                if v.k in ('lambda', 'fnref'):
                    self.env[d['id']] = (lambda v=v: v); continue
                t = parse(d['t'])
                nm = self.fresh('l')
                if v.k == 'mapit' or v.cont is not None: 
                    self.env[d['id']] = (lambda v=v: v); continue
                pre += f'let {nm} = {self.coerce(v, t)}; '
                self.env[d['id']] = (lambda nm=nm, t=t, v=v: V(nm, t.noref(), None, v.cont, v.k if v.cont else None))
            return '{ ' + pre + self.pure_stmts(rest, rt) + ' }'
        if k == 'IfStmt':
            if 'init' in s: raise Unsupported('if-init in pure body')
            if s.get('constexpr') and 'cval' in s:
                br = s['then'] if s['cval'] else s.get('else')
                return self.pure_stmts(([br] if br else []) + rest, rt)
            pre, post = '', ''
            saved = dict(self.env)
            if 'var' in s:
                d = s['var']; v = self.ex(d['init']); t = parse(d['t']); nm = self.fresh('l')
                if v.cont is None:
                    pre, post = f'{{ let {nm} = {self.coerce(v, t)}; ', ' }'
                    self.env[d['id']] = (lambda nm=nm, t=t: V(nm, t.noref()))
                else: self.env[d['id']] = (lambda v=v: v)
            c = self.to_bool(self.ex(s['cond']))
            self.guards.append(c)
            a = self.pure_stmts([s['then']] + (rest if not self.always_returns(s['then']) else []), rt)
            self.guards.pop()
            if not pre: self.env = dict(saved)
            self.guards.append(f'!({c})')
            b = self.pure_stmts(([s['else']] if s.get('else') else []) + rest, rt)
            self.guards.pop()
            self.env = saved
            return f'{pre}if {c} {{ {a} }} else {{ {b} }}{post}'
        raise Unsupported(f'pure body: {k}')

    def always_returns(self, s):
        if s is None: return False
        k = s['k']
        if k == 'ReturnStmt': return True
        if k == 'CompoundStmt': return any(self.always_returns(x) for x in s['c'])
        if k == 'IfStmt': return s.get('else') is not None and self.always_returns(s['then']) and self.always_returns(s['else'])
        return False

    def noop(self, s):
        k = s.get('k')
        if k == 'CStyleCastExpr' and s.get('ck') == 'ToVoid':
            x = strip_casts(s['e'])
            return x['k'] in ('IntegerLiteral', 'DeclRefExpr')
        return False

    # calls ----------------------------------------------------------------
    def e_CallExpr(self, n):
        if 'fn' not in n:
            f = self.ex(n['calleeE'])
            if f.k in ('lambda', 'fnref'): return self.call_lambda(f, n['args'], parse(n['t']))
            return self.call_opaque(f, n)
        return self.call(n, n['fn'], None, n['args'])

    def call_opaque(self, f, n):
        key = 'call_opaque'
        if key in self.p.ext: return self.ext_model(key, f, self.exprs(n['args']), parse(n['t']))
        raise Unsupported(f'indirect call ({self.file}:{self.line})')

    def e_CXXMemberCallExpr(self, n):
        return self.call(n, n['fn'], n.get('obj'), n['args'])

    def e_CXXOperatorCallExpr(self, n):
        fn = n.get('fn')
        if fn is None: raise Unsupported('operator call')
        args = n['args']
        if fn.get('method') and not fn.get('static'):
            return self.call(n, fn, args[0], args[1:])
        return self.call(n, fn, None, args)

    def e_UserDefinedLiteral(self, n): raise Unsupported('udl')

    def call(self, n, fn, objn, argn):
        t = parse(n['t'])
        # default arguments of std functions are irrelevant to the models
        name = fn['n']
        # raw_ostream output: dropped
        if n.get('op') == '<<' and M.is_raw_ostream(parse(n['t'])):
            return self.drop_output(n)
        if objn is None:
            vs = self.exprs(argn)
            obj = None
        else:
            vs = self.exprs([objn] + argn)
            obj, vs = vs[0], vs[1:]
            if obj.k == 'lambda': return self.call_lambda_v(obj, vs, t)
        if n.get('op') and n.get('op') != '()' and not (fn.get('root') and fn.get('def')):
            r = M.operator(self, n, fn, obj, vs, t)
            if r is not None: return r
        return self.call_fn(fn, obj, vs, t, n)

    def drop_output(self, n):
        def walk(x):
            if x.get('op') == '<<' and M.is_raw_ostream(parse(x['t'])):
                walk(x['args'][0])
                y = x['args'][1]
                self.p.unchecked.add('output written to llvm::errs()/raw_ostream is dropped')
                at = self.snap()
                try:
                    self.ex(y)
                except Unsupported:
                    self.restore(at)
        walk(n)
        return V('()', TVOID, k='stream')

    def snap(self):
        return (self.out, list(self.out), dict(self.env), self.tailnode, list(self.exstack), list(self.guards), self.ind, list(self.retmode), list(self.loopstack))

    def restore(self, s):
        """back to the state before an attempt that failed part way"""
        self.out = s[0]; self.out[:] = s[1]; self.env = dict(s[2]); self.tailnode = s[3]; self.exstack = list(s[4]); self.guards = list(s[5]); self.ind = s[6]
        self.retmode[:] = s[7]; self.loopstack[:] = s[8]

    def call_lambda(self, f, argn, t):
        return self.call_lambda_v(f, self.exprs(argn), t)

    def call_lambda_v(self, f, vs, t):
        if f.k == 'fnref': return self.call_fn(f.extra, None, vs, t, None)
        n, snap, _ = f.extra
        try:
            save = self.snap()
            return self.apply_pure(f, vs)
        except Unsupported:
            if self.pure: raise
            self.restore(save)
        saved = dict(self.env)
        for i, v in snap.items(): self.env[i] = (lambda v=v: v)
        r = self.inline_exec(n['params'], n['body'], vs, parse(n['rt']), 'lambda')
        for k_ in list(self.env):
            if k_ not in saved: del self.env[k_]
        self.env.update({k_: saved[k_] for k_ in snap if k_ in saved})
        return r

    def ext_model(self, key, obj, vs, t):
        m = self.p.ext[key]
        self.p.ext_used.add(key)
        if callable(m):
            return m(self, obj, vs, t)
        pre = None
        if isinstance(m, tuple): m, pre = m
        a = [f'({v.e})' if v is not None and not re.fullmatch(r'[\w.]+(\(\))?', v.e) else (v.e if v else '') for v in ([obj] + vs)]
        if pre: self.assert_(self.p.text_sub(pre).format(*a), f'precondition of {key}')
        return V(self.p.text_sub(m).format(*a), t)

    def call_fn(self, fn, obj, vs, t, n):
        name = fn['n']
        short = self.p.short(fn['key'])
        con = self.p.contract_for(fn)
        if con is not None and not con.inline:
            return self.call_contract(fn, con, obj, vs, t)
        for key in (short, name, self.p.short(name)):
            if key in self.p.ext:
                return self.ext_model(key, obj, vs, t)
        r = M.builtin(self, n, fn, obj, vs, t)
        if r is not None:
            return r
        if fn.get('def'):
            g = self.p.unit.fns.get((self.fn['di'], fn['def']))
            if g is None:
                c = [f for f in self.p.unit.byname.get(name, []) if f['key'] == fn['key']]
                g = c[0] if c else None
            if g is not None and not fn.get('virtual'): return self.inline(g, obj, vs, t)
        if fn.get('root') and not fn.get('def') and not fn.get('virtual'):
            c = [f for f in self.p.unit.byname.get(name, []) if f['key'] == fn['key']]
            if c: return self.inline(c[0], obj, vs, t)
            raise Unsupported(f'call to {short} whose body is not among the dumped units ({self.file}:{self.line})')
        # opaque accessor: uninterpreted, assumed pure when const / takes no mutable refs
        return self.uninterpreted(fn, obj, vs, t)

    def uninterpreted(self, fn, obj, vs, t):
        name = fn['n']
        pt = [parse(x) for x in fn.get('pt', [])]
        for p_, v in zip(pt, vs):
            if p_.ref == '&' and not p_.const and not p_.is_ptr() and self.p.kind(p_) in ('vec', 'str', 'map', 'set', 'rec', 'opt'):
                raise Unsupported(f'unmodelled call {name} with mutable argument ({self.file}:{self.line})')
        if fn.get('method') and not fn.get('static') and not fn.get('const') and obj is not None and self.p.kind(obj.t) not in ('ptr', 'opaque'):
            raise Unsupported(f'unmodelled non-const method {name} ({self.file}:{self.line})')
        if not (name.startswith('clang::') or name.startswith('llvm::')):
            raise Unsupported(f'unmodelled function {name} ({self.file}:{self.line})')
        if obj is not None and self.p.kind(obj.t) == 'ptr' and self.c.nullcheck and obj.k != 'deref':
            self.assert_(f'{obj.e} != 0', f'call of {name.split("::")[-1]} on a non-null pointer')
        args = ([obj] if obj is not None and not fn.get('static') else []) + vs
        es = []
        tys = []
        for i, v in enumerate(args):
            if v.k in ('lambda', 'fnref'): raise Unsupported(f'closure passed to unmodelled {name}')
            es.append(v.e); tys.append(self.p.vt(v.t))
        if self.p.kind(t) == 'void': raise Unsupported(f'unmodelled void function {name}')
        f = self.p.uninterp_fn(name, tys, self.p.vt(t))
        self.p.assumed_pure.add(name)
        return V(f'{f}({", ".join(es)})', t)

    def inline(self, g, obj, vs, t):
        if g['key'] in self.fnstack: raise Unsupported(f'recursive {g["n"]} without contract')
        if len(self.fnstack) > 12: raise Unsupported('inlining too deep')
        self.p.inlined.add(g['n'])
        self.fnstack.append(g['key'])
        saved_env, saved_fn, saved_file = self.env, self.fn, self.file
        env = dict(self.env) if g['di'] == self.fn['di'] else {}
        con = self.p.contract_for(g)
        try:
            rt = parse(g['rt'])
            # pure attempt
            at = self.snap()
            def setup(mutable):
                e = {}
                if obj is not None:
                    o = obj
                    if self.p.kind(o.t) == 'rec' : pass
                    e['this'] = (lambda o=o: o)
                for p, v in zip(g['params'], vs):
                    pt = parse(p['t'])
                    if v.k in ('lambda', 'fnref') or v.cont is not None or v.k == 'backins':
                        e[p['id']] = (lambda v=v: v); continue
                    ev = self.coerce(v, pt)
                    vv = v.t if self.p.kind(pt) == 'rec' else pt.noref()
                    if self.p.kind(v.t) == self.p.kind(pt) and pt.ref and not pt.const:
                        e[p['id']] = (lambda v=v, vv=vv: V(v.e if v.lv is None else self.cur(v.lv), vv, v.lv))
                    else:
                        e[p['id']] = (lambda ev=ev, vv=vv: V(ev, vv))
                return e
            self.env = setup(False)
            self.fn = g; self.file = g['file']
            saved_pure = self.pure
            self.pure += 1
            try:
                if g.get('ctor'): raise Unsupported('ctor')
                if rt.ref and not rt.const and not saved_pure and self.p.kind(rt) in ('vec', 'map', 'set', 'mmap', 'rec', 'str'): raise Unsupported('returns a reference')
                r = self.pure_body(g['body'], rt)
                return V(r.e, t if self.p.kind(t) == self.p.kind(rt) else rt)
            except Unsupported as ex_:
                self.restore(at)
                why_ = str(ex_)
            finally:
                self.pure -= 1
            if self.pure: raise Unsupported(f'cannot inline {g["n"]} in a pure context: {why_}')
            # exec inlining; bind by-value params first (in the caller's env)
            self.env, self.fn, self.file = saved_env, saved_fn, saved_file
            vs = [v if (v.k in ('lambda', 'fnref', 'backins') or (v.lv is not None and parse(p['t']).ref and not parse(p['t']).const) or v.cont is not None) else self.bind(V(self.coerce(v, parse(p['t'])), v.t if self.p.kind(parse(p['t'])) == 'rec' else parse(p['t']).noref()))
                  for p, v in zip(g['params'], vs)]
            self.env = setup(True)
            self.fn = g; self.file = g['file']
            if con is not None and con.inline:
                saved_loops = self.loops
                self.loops = saved_loops[:self.loopno] + list(con.loops) + saved_loops[self.loopno:]
                for kk, vv in con.locals.items(): self.locals_left.setdefault(kk, vv)
            return self.inline_exec(g['params'], g['body'], None, rt, g['n'])
        finally:
            self.env, self.fn, self.file = saved_env, saved_fn, saved_file
            self.fnstack.pop()

    def inline_exec(self, params, body, vs, rt, what):
        if vs is not None:
            for p, v in zip(params, vs):
                pt = parse(p['t'])
                if v.k in ('lambda', 'fnref', 'backins') or v.cont is not None:
                    self.env[p['id']] = (lambda v=v: v); continue
                if pt.ref and not pt.const and v.lv is not None:
                    self.env[p['id']] = (lambda v=v: V(self.cur(v.lv), v.t, v.lv)); continue
                b = self.bind(V(self.coerce(v, pt), v.t if self.p.kind(pt) == 'rec' or 'auto' in p['t'] else pt.noref()))
                if not pt.ref and not pt.const:
                    nm = self.name(p['n']); self.mutroots.add(nm)
                    self.emit(f'let ghost mut {nm}: {self.p.vt(b.t)} = {b.e};')
                    b = V(nm, b.t, ('var', nm))
                self.env[p['id']] = (lambda b=b: b)
        isvoid = self.p.kind(rt) == 'void'
        if self.exstack and self.tailnode is not None and self.exstack[-1] is self.tailnode and self.retmode[-1] is None and not self.guards and (isvoid if self.kind_of_return() == 'void' else self.p.vt(rt) == self.p.vt(parse(self.topfn['rt']))):
            # the last that is executed: its returns are those of the function
            self.tailnode = None
            self.retmode.append(None); self.loopstack.append('fn')
            self.st_list(body['c'] if body['k'] == 'CompoundStmt' else [body], True)
            self.loopstack.pop(); self.retmode.pop()
            if not isvoid:
                if not self.always_returns(body):
                    self.emit('assert(false); // RT: control reaches the end of a non-void function')
                    self.emit('return Ghost(arbitrary());')
                return V('()', rt.noref(), None, None, 'returned')
            return V('()', rt.noref())
        self.tailnode = None
        rv, dv = self.fresh('r'), self.fresh('d')
        self.mutroots |= {rv, dv}
        if not isvoid: self.emit(f'let ghost mut {rv}: {self.p.vt(rt)} = arbitrary();')
        self.emit(f'let ghost mut {dv}: bool = false;')
        self.retmode.append((rv, dv, rt, {}))
        self.loopstack.append('fn')
        g, self.guards = self.guards, []
        self.st_list(body['c'] if body['k'] == 'CompoundStmt' else [body])
        self.guards = g
        self.loopstack.pop()
        info = self.retmode.pop()[3]
        lvs = info.get('lvs') or [None]
        if lvs[0] is not None and all(x == lvs[0] for x in lvs):   # returns a reference: an alias
            return V(self.cur(lvs[0]), rt.noref(), lvs[0], info.get('cont'), info.get('k'))
        return V(rv if not isvoid else '()', rt.noref(), None, info.get('cont'), info.get('k'))

    def result_expr(self, con, fn, args):
        """the result of a function that changes nothing as a term, if its contract says which"""
        if con.statics or con.mut or con.mut is None and any(parse(x).ref == '&' and not parse(x).const and not parse(x).is_ptr() for x in fn['pt']): return None
        if fn.get('method') and not fn.get('static') and con.mut is None and not fn.get('const'): return None
        if con.pure: return f'{con.pure}({", ".join(args)})'
        m = next((re.match(r'ret == (.*)$', x, re.S) for x in con.ensures if re.match(r'ret == ', x)), None)
        names = (['self_'] if fn.get('method') and not fn.get('static') else []) + list(con.params or [])
        if m is None or re.search(r'\bret\b|==>|_out\b|\b(?:old|log)\b', m[1]) or con.params is None or len(names) != len(args) or con.ptypes: return None
        fr = [self.fresh('p') for _ in names]
        return '{ ' + ' '.join(f'let {x} = {a};' for x, a in zip(fr, args)) + ' ' + ' '.join(f'let {x} = {y};' for x, y in zip(names, fr)) + f' {self.p.text_sub(m[1])} }}'

    def call_contract(self, fn, con, obj, vs, t):
        if self.pure:
            if con.pure:
                a = [f'({v.e})' for v in ([obj] if obj is not None else [None]) if v is not None] 
                args = ([obj.e] if obj is not None and not fn.get('static') and fn.get('method') else []) + [self.coerce(v, parse(p)) for v, p in zip(vs, fn['pt'])]
                return V(f'{con.pure}({", ".join(args)})', t)
            hasobj = obj is not None and not fn.get('static') and fn.get('method')
            e = None if any(v.k in ('lambda', 'fnref') for v in vs) else self.result_expr(con, fn, ([obj.e] if hasobj else []) + [self.coerce(v, parse(p)) for v, p in zip(vs, fn['pt'])])
            if e is not None: return V(e, t)
            raise Unsupported(f'call of {fn["n"]} (contract, not pure) inside a closure')
        g = None
        params = [parse(x) for x in fn['pt']]
        isstatic = not fn.get('method') or fn.get('static')
        ents = []
        outs = []
        c = con
        mut = con.mut
        if not isstatic:
            ents.append(obj.e)
            if (mut is not None and 'this' in mut) or (mut is None and not fn.get('const')):
                outs.append(obj)
        for i, (pt, v) in enumerate(zip(params, vs)):
            if v.k in ('lambda', 'fnref'): raise Unsupported('closure argument to contract function')
            pn = con.params[i] if con.params else None
            if con.ptypes.get(pn) == 'cursor': pass
            ents.append(v.e if (pn in con.ptypes) else self.coerce(v, pt))
            if (mut is not None and i in mut) or (mut is None and pt.ref == '&' and not pt.const and not pt.is_ptr()):
                outs.append(v)
        for s in con.statics:
            if s not in self.c.statics: raise Unsupported(f'caller of {fn["n"]} does not thread the function-static {s}')
            ents.append(s); outs.append(V(s, TVOID, ('var', s)))
        tn = self.fresh('call')
        bound = []
        for e in ents:
            if re.fullmatch(r'[A-Za-z_]\w*', e): bound.append(e)
            else:
                b = self.fresh(); self.emit(f'let ghost {b} = {e};'); bound.append(b)
        if self.guards:
            raise NeedExec('contract call under guard')
        hb = self.c.hints.get('before_call:' + fn['n'])
        if hb: self.emit(f'proof {{ {self.p.text_sub(hb)} }}')
        self.emit(f'let {tn} = {self.p.vname(fn)}({", ".join(f"Ghost({e})" for e in bound)});')
        rt = parse(fn['rt'])
        parts = 1 + len(outs)
        rv = self.fresh('r')
        if con.pure is not None:
            pass
        if parts == 1:
            e = self.result_expr(con, fn, bound)
            if e is not None: self.__dict__.setdefault('callspec', {})[tn] = e
            self.emit(f'let ghost {rv} = {tn}@;')
        else:
            self.emit(f'let ghost {rv} = {tn}@.0;')
            for i, o in enumerate(outs):
                if o.lv is None: raise Unsupported(f'mutable argument without l-value in call of {fn["n"]} ({self.file}:{self.line})')
                self.assign(o.lv, f'{tn}@.{i+1}')
        cont = None
        k = None
        if self.p.kind(rt) == 'iter' and con.ret is not None:
            # con.ret names the parameter the iterator ranges over
            idx = con.ret
            v = obj if idx == 'this' else vs[idx]
            cont, k = v, 'vecit'
        if self.p.kind(rt) == 'void': return V('()', TVOID)
        return V(rv, t if self.p.kind(t) == self.p.kind(rt) else rt.noref(), None, cont, k)

    def e_CXXConstructExpr(self, n):
        t = parse(n['t'])
        args = [a for a in n['args'] if not M.is_allocator_arg(a)]
        k = self.p.kind(t)
        key = n['fn']['n']
        for kk in (self.p.short(n['fn']['key']), key):
            if kk in self.p.ext and not n.get('copy'):
                return self.ext_model(kk, None, self.exprs(args), t)
        if n.get('copy') and len(args) == 1:
            v = self.ex(args[0])
            return V(v.e, v.t, None, v.cont, v.k, v.extra)
        r = M.construct(self, n, t, k, args)
        if r is not None: return r
        if k == 'rec':
            g = None
            if n['fn'].get('def'):
                g = self.p.unit.fns.get((self.fn['di'], n['fn']['def'])) 
            if g is None:
                c = [f for f in self.p.unit.byname.get(n['fn']['n'], []) if f['key'] == n['fn']['key']]
                g = c[0] if c else None
            if g is None:
                if not args: return V(self.p.default_rec(t), t)
                raise Unsupported(f'constructor {key}')
            vs = self.exprs(args)
            saved, sfn, sfile = self.env, self.fn, self.file
            vals = {}
            env = {}
            for p, v in zip(g['params'], vs):
                pt = parse(p['t'])
                ev = self.coerce(v, pt)
                env[p['id']] = (lambda ev=ev, pt=pt: V(ev, pt.noref()))
            self.env, self.fn, self.file = env, g, g['file']
            try:
                used = self.p.recfields.setdefault(self.p.rec_of(t), {})
                for i in g['inits']:
                    if i.get('field') in used:
                        vals[i['field']] = self.coerce(self.ex(i['e']), self.p.field(self.p.rec_of(t), i['field']))
                if any(not self.noop(s) for s in g['body'].get('c', [])): raise Unsupported(f'constructor body of {key}')
            finally:
                self.env, self.fn, self.file = saved, sfn, sfile
            return self.rec_build(t, vals)
        if k == 'opaque' or k == 'ptr':
            vs = self.exprs(args)
            if any(v.k in ('lambda', 'fnref') for v in vs): return V('arbitrary::<int>()', t)
            f = self.p.uninterp_fn('new_' + key, [self.p.vt(v.t) for v in vs], 'int')
            self.p.assumed_pure.add('constructor ' + key)
            return V(f'{f}({", ".join(v.e for v in vs)})', t)
        raise Unsupported(f'construct {t.raw[:80]} from {len(args)} args ({self.file}:{self.line})')
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXDeleteExpr(self, n):
        v = self.ex(n['c'][0])
        key = 'delete ' + re.sub(r'^const |\s*\*.*$', '', parse(n['c'][0]['t']).raw).strip()
        if key in self.p.ext:
            self.p.ext_used.add(key)
            return self.p.ext[key](self, v, [], TVOID)
        self.p.unchecked.add('the destructor run by ' + key)
        return V('()', TVOID)

    def e_CXXNewExpr(self, n):
        # identity of a new object: unknown but not null; the constructor's effects are not modelled
        if self.pure: raise NeedExec('new in a pure expression')
        t = parse(n['t'])
        e = n.get('e')
        vs = self.exprs([a for a in e.get('args') or e.get('c') or []]) if e else []
        if 'new ' + n['at'] in self.p.ext:
            self.p.ext_used.add('new ' + n['at'])
            return self.p.ext['new ' + n['at']](self, None, vs, t)
        self.p.assumed_pure.add('constructor of ' + n['at'])
        c, r = self.fresh('new'), self.fresh('r')
        self.emit(f'let {c} = alloc_();')
        self.emit(f'let ghost {r} = {c}@;')
        return V(r, t)

    # ---------- statements
    def st(self, n):
        if n is None: return
        self.line = n.get('l') or self.line
        k = n['k']
        tail, self.tailnext, self.tailnode = self.tailnext, False, None
        if k in ('CompoundStmt', 'IfStmt', 'ReturnStmt'): self.istail = tail
        elif tail and self.kind_of_return() == 'void': self.tailnode = strip_casts(n.get('e') if k == 'ExprWithCleanups' else n)
        h = getattr(self, 's_' + k, None)
        if h: h(n); return
        if self.noop(n): return
        if k.endswith('Stmt'): raise Unsupported(f'statement {k} ({self.file}:{self.line})')
        self.ex(n)

    def s_NullStmt(self, n): pass
    def s_CompoundStmt(self, n): self.st_list(n['c'], self.istail)

    def kind_of_return(self): return self.p.kind(parse(self.topfn['rt']))

    def st_list(self, stmts, tail=False):
        """statement list; in return-flag mode, statements after a possible return are guarded"""
        depth = 0
        for i, s in enumerate(stmts):
            self.tailnext = tail and (i + 1 == len(stmts) or (i + 2 == len(stmts) and isinstance(stmts[i + 1], dict) and stmts[i + 1].get('k') == 'ReturnStmt' and 'e' not in stmts[i + 1]))
            self.st(s)
            self.tailnext = False
            rm = self.retmode[-1]
            if rm is not None and i + 1 < len(stmts) and self.may_return(s):
                if self.in_loop_of_inline():
                    # inside a loop of an inlined function: leave the iteration
                    self.emit(f'if br(Ghost({rm[1]})) {{ continue; }}')
                else:
                    # emit rest under guard; declarations stay inside the block
                    self.emit(f'if br(Ghost(!{rm[1]})) {{')
                    self.ind += 1
                    depth += 1
        for _ in range(depth):
            self.ind -= 1
            self.emit('}')

    def in_loop_of_inline(self):
        return bool(self.loopstack) and self.loopstack[-1] != 'fn' and 'fn' in self.loopstack

    def may_return(self, s):
        if s is None or not isinstance(s, dict): return False
        if s.get('k') == 'ReturnStmt': return True
        if s.get('k') == 'LambdaExpr': return False
        for key in ('then', 'else', 'body', 'sub'):
            if isinstance(s.get(key), dict) and self.may_return(s[key]): return True
        if s.get('k') in ('CompoundStmt', 'SwitchStmt', 'CaseStmt', 'DefaultStmt', 'AttributedStmt'):
            return any(self.may_return(x) for x in s.get('c', []))
        return False

    def pick_name(self, cpp, vt):
        n = sane(cpp)
        if n in self.locals_left and n not in self.used:
            self.locals_left.pop(n)
            self.used.add(n); return n
        present = self.all_local_names()
        for want, wt in list(self.locals_left.items()):
            if wt == vt and want not in present and want not in self.used:
                self.locals_left.pop(want); self.used.add(want)
                return want
        return self.name(cpp)

    def all_local_names(self):
        if not hasattr(self, '_names'):
            s = set()
            def walk(x):
                if isinstance(x, dict):
                    if x.get('k') == 'VarDecl': s.add(sane(x['n']))
                    for v in x.values(): walk(v)
                elif isinstance(x, list):
                    for v in x: walk(v)
            walk(self.fn['body'])
            self._names = s
        return self._names

    def s_DeclStmt(self, n):
        for d in n['decls']:
            if d['k'] == 'VarDecl': self.decl(d)
            elif d['k'] in ('StaticAssertDecl', 'TypeAliasDecl', 'TypedefDecl', 'UsingDecl', 'UsingDirectiveDecl', 'EmptyDecl', 'CXXRecordDecl'): pass
            else: raise Unsupported(f'declaration {d["k"]}')

    def decl(self, d):
        self.line = d.get('l') or self.line
        t = parse(d['t'])
        if 'bindings' in d: return self.decl_bindings(d, t)
        if d.get('static') and not t.const:
            if d['n'] in self.c.statics:
                nm = sane(d['n'])
                self.env[d['id']] = (lambda nm=nm, t=t: V(nm, t.noref(), ('var', nm)))
                return
            raise Unsupported(f'mutable function-static {d["n"]}')
        if 'init' not in d:
            k = self.p.kind(t)
            nm = self.pick_name(d['n'], self.p.vt(t)); self.mutroots.add(nm)
            self.emit(f'let ghost mut {nm}: {self.p.vt(t)} = arbitrary();')
            self.env[d['id']] = (lambda: V(nm, t.noref(), ('var', nm)))
            return
        h = M.decl_hook(self, d, t)
        if h: return
        v = self.ex(d['init'])
        if v.k in ('lambda', 'fnref', 'cpo', 'backins'):
            self.env[d['id']] = (lambda: v); return
        if t.ref and v.lv is not None and (not t.const or self.root(v.lv) in self.mutroots):
            # reference: alias
            lv = self.freeze(v.lv)
            self.env[d['id']] = (lambda: V(self.cur(lv), v.t, lv))
            return
        if self.p.kind(t) == 'rec' and t.is_ptr() and v.lv is not None:
            lv = self.freeze(v.lv)
            self.env[d['id']] = (lambda: V(self.cur(lv), v.t, lv)); return
        vt = 'Option<%s>' % self.p.vt(v.extra) if v.k == 'mapit' else (self.p.vt(v.t) if self.p.kind(t) == 'rec' else self.p.vt(t))
        nm = self.pick_name(d['n'], vt); self.mutroots.add(nm)
        e = v.e if v.k == 'mapit' else self.coerce(v, t)
        if v.cont is not None and e.endswith('.len()'): e += ' as int'
        self.emit(f'let ghost mut {nm}: {vt} = {e};')
        tt = v.t if self.p.kind(t) == 'rec' else t.noref()
        if v.k == 'mapit':
            self.env[d['id']] = (lambda: V(nm, v.t, ('var', nm), v.cont, 'mapit', v.extra))
        else:
            # a reference to something that has no name here can be read, not written to
            lv = None if t.ref and not t.const and not d['t'].rstrip().endswith('&&') and self.p.kind(t) in ('vec', 'map', 'set', 'mmap', 'rec', 'str') and v.cont is None else ('var', nm)
            self.env[d['id']] = (lambda: V(nm, tt, lv, v.cont, v.k if v.cont is not None else None))

    def decl_bindings(self, d, t):
        v = self.ex(d['init'])
        if v.k == 'itpair':
            for i, b in enumerate(d['bindings']):
                self.env[b['id']] = (lambda x=v.extra[i]: x)
            return
        v = self.bind(v)
        k = self.p.kind(v.t)
        for i, b in enumerate(d['bindings']):
            if k == 'pair':
                bv = V(f'{v.e}.{i}', v.t.args[i], None)
                self.env[b['id']] = (lambda bv=bv: bv)
            elif k == 'rec':
                raise Unsupported('record decomposition')
            else: raise Unsupported('decomposition of ' + v.t.raw)

    def freeze(self, lv):
        """evaluate index/key sub-expressions now"""
        k = lv[0]
        if k == 'var': return lv
        base = self.freeze(lv[1])
        if k in ('idx', 'map'):
            key = lv[2]
            if not re.fullmatch(r'-?\d+int|lit_\w+\(\)|[a-z]+\d+_', key):
                tn = self.fresh(); self.emit(f'let ghost {tn} = {key};'); key = tn
            return (k, base, key) + tuple(lv[3:])
        return (k, base) + tuple(lv[2:])

    def s_IfStmt(self, n):
        if n.get('constexpr') and 'cval' in n:
            br = n['then'] if n['cval'] else n.get('else')
            if br:
                self.tailnext = self.istail
                self.st(br)
            return
        tail, self.istail = self.istail, False
        scoped = 'init' in n or 'var' in n
        if 'init' in n: self.st(n['init'])
        if 'var' in n: self.decl(n['var'])
        c = self.to_bool(self.ex(n['cond']))
        saved = dict(self.env)
        self.emit(f'if br(Ghost({c})) {{', n['l'])
        self.ind += 1
        self.tailnext = tail
        self.st(n['then'])
        self.ind -= 1
        self.env = dict(saved)
        if n.get('else'):
            self.emit('} else {')
            self.ind += 1
            self.tailnext = tail
            self.st(n['else'])
            self.ind -= 1
            self.env = dict(saved)
        self.emit('}')

    def s_ReturnStmt(self, n):
        rm = self.retmode[-1]
        tail, self.istail = self.istail, False
        if rm is None:
            # `return helper();`: what the helper returns is returned
            if 'e' in n and not any(x != 'fn' for x in self.loopstack): self.tailnode = self.strip_same(n['e'])
            v = self.ex(n['e']) if 'e' in n else None
            if v is not None and v.k == 'returned': return
            if self.loopstack and self.loopstack[-1] not in ('fn', 'switch'): self.searched()
            self.emit_return(v, n['l'])
            return
        rv, dv, rt, info = rm
        if 'e' in n:
            v = self.ex(n['e'])
            if self.p.kind(rt) != 'void':
                if v.k == 'mapit': raise Unsupported('inlined function returns map iterator')
                self.emit(f'proof {{ {rv} = {self.coerce(v, rt)}; }}')
                if v.cont is not None: info['cont'], info['k'] = v.cont, v.k
                if rt.ref and not rt.const: info.setdefault('lvs', []).append(self.freeze(v.lv) if v.lv is not None else None)
        self.emit(f'proof {{ {dv} = true; }}')
        if self.in_loop_of_inline():
            self.found(rv, dv)
            self.emit('continue;')

    def found(self, rv, dv):
        """a helper returns from its loop: if nothing was changed on the way, the state is that of the loop's head and what was found out is known after the loop"""
        j = len(self.loopstack) - 1 - self.loopstack[::-1].index('fn')
        if len([x for x in self.loopstack[j:] if x != 'switch']) != 2: return
        start, hook, no = self.bodystart[-1]
        if hook is None: return
        i_ = f'i{no}'
        e = self.exit_cond(start, i_, rv, dv)
        if e is None: return
        ranged = self.loopstack[-1][0] == 'range'
        if ranged:
            e = re.sub(r'\b%s - 1\b' % i_, i_, e)
            self.emit(f'proof {{ {i_} = {i_} - 1; }}')
        ind, t, l = self.out[hook]
        old = re.sub(r',? *// INV\d+$', '', t.strip()); old = '' if old == 'true' else old
        bound = f'{i_} < rng{no}.len() && ' if ranged else ''
        neu = f'({old[len(dv) + 5:]}) || ({bound}{e})' if old else f'{bound}{e}'
        self.out[hook] = (ind, f'    {dv} ==> {neu}, // INV{no}' if not old else f'    {dv} ==> {neu}, // INV{no}', l)

    def searched(self):
        """a return from a loop without annotations that changes nothing: none of the elements before met the condition"""
        if [x for x in self.loopstack if x not in ('switch', 'fn')] != self.loopstack[-1:] or self.loopstack[-1][0] != 'range': return
        start, hook, no = self.bodystart[-1]
        if hook is None: return
        e = self.exit_cond(start, f'i{no}', None, None)
        if e is None: return
        e = re.sub(r'\bi%d - 1\b' % no, 'j_', e)
        if f'rng{no}[j_]' not in e: return
        e = e.replace(f'rng{no}[j_]', f'(#[trigger] rng{no}[j_])', 1)
        ind, t, l = self.out[hook]
        old = re.sub(r',? *// INV\d+$', '', t.strip()); old = '' if old == 'true' else old
        self.out[hook] = (ind, f'    {old + " && " if old else ""}(forall|j_: int| 0 <= j_ < i{no} ==> !{e}), // INV{no}', l)

    def exit_cond(self, start, i_, rv, dv):
        """the condition under which the place that is reached now is reached from the start of the iteration (None: not only conditions on the way)"""
        lets, frames, ret = [], [], 'true'
        own = set()
        for _, t, _ in self.out[start:]:
            t = re.sub(r'\s*//.*$', '', t.strip())
            if not t or t.startswith('assert('): continue
            m = re.match(r'let (call\w+) = \w+\(.*\);$', t, re.S)
            if m and m[1] in getattr(self, 'callspec', {}): continue
            m = re.match(r'let ghost (\w+) = (call\w+)@;$', t)
            if m and m[2] in getattr(self, 'callspec', {}): t = f'let ghost {m[1]} = {self.callspec[m[2]]};'
            m = re.match(r'let ghost (?:mut )?(\w+)(?:: [^=]*)? = (.*);$', t, re.S)
            if m: (frames[-1]['lets'] if frames else lets).append(f'let {m[1]} = {m[2]};'); own.add(m[1]); continue
            m = re.match(r'if br\(Ghost\((.*)\)\) \{$', t, re.S)
            if m: frames.append({'c': m[1], 'lets': [], 'cont': False, 'else': False}); continue
            if t == '} else {' and frames: frames[-1]['c'] = f'!({frames[-1]["c"]})'; frames[-1]['lets'] = []; frames[-1]['else'] = True; frames[-1]['cont'] = False; continue
            if t == '}' and frames:
                f = frames.pop()
                if f['cont'] and not f['else'] and not frames: lets.append(('fact', f'!({f["c"]})'))
                if f.get('asg') and not f['cont'] and not f['else']:
                    x, v = f['asg']
                    (frames[-1]['lets'] if frames else lets).append(f'let {x} = (if {f["c"]} {{ {" ".join(f["lets"])} {v} }} else {{ {x} }});')
                continue
            if (t == 'continue;' or t.startswith('return ')) and frames: frames[-1]['cont'] = True; continue
            m = re.match(r'proof \{ (\w+) = (.*); \}$', t, re.S)
            if m and m[1] in (i_, dv): continue
            if m and m[1] == rv:
                if not frames or frames[-1] is not None: ret = f'{rv} == {m[2]}'
                continue
            if m and m[1] in own and frames and 'asg' not in frames[-1] and not frames[-1]['else']: frames[-1]['asg'] = (m[1], m[2]); continue
            return None
        e = ret
        for f in reversed(frames): e = f'(({f["c"]}) && {{ {" ".join(f["lets"])} {e} }})'
        for x in reversed(lets): e = f'(({x[1]}) && {e})' if isinstance(x, tuple) else f'{{ {x} {e} }}'
        return e

    def strip_same(self, x):
        while isinstance(x, dict) and (x.get('k') == 'ExprWithCleanups' or x.get('k') == 'ImplicitCastExpr' and x.get('ck') in ('NoOp', 'LValueToRValue')): x = x['e']
        return x

    def emit_return(self, v, line):
        rt = parse(self.topfn['rt'])
        if v is None: e = '()'
        elif self.p.kind(rt) == 'void': e = '()'
        else: e = self.coerce(v, rt)
        h = self.c.hints.get('return_loop' if any(x != 'fn' for x in self.loopstack) else 'return', self.c.hints.get('return'))
        if h or self.outs:
            self.emit(f'let ghost ret_ = {e};', line)
            if h: self.emit(f'proof {{ let ret = ret_; {self.p.text_sub(h)} }}', line)
            e = 'ret_'
        outs = [e] + self.outs
        # Ghost() takes only simple expressions reliably: bind
        if not re.fullmatch(r'\w+|\(\)', e):
            self.emit(f'let ghost ret_ = {e};', line); outs[0] = 'ret_'
        self.emit('return Ghost(%s);' % (outs[0] if len(outs) == 1 else '(' + ', '.join(outs) + ')'), line)

    # loops
    def loop_spec(self):
        i = self.loopno
        self.loopno += 1
        return (self.loops[i] if i < len(self.loops) else Loop()), i

    def open_loop(self, cond, spec, no, autoinv, dec, line, brk):
        p = self.p
        if spec.pre: self.emit(p.text_sub(spec.pre), line)
        if spec.before: self.emit(f'proof {{ {p.text_sub(spec.before)} }}', line)
        rm = self.retmode[-1]
        c = []
        if brk: c.append('!' + brk)
        if rm is not None: c.append('!' + rm[1])
        if cond != 'true': c.append(cond)
        self.emit(f'while br(Ghost(({" && ".join(c) or "true"})))', line)
        self.ind += 1
        inv = autoinv + [p.text_sub(x) for x in spec.inv]
        hook = None
        auto = rm is None and not spec.inv and cond.startswith(f'i{no} < rng')
        if rm is not None or auto: inv.append('true')
        if inv:
            self.emit('invariant', line)
            for x in inv: self.emit(f'    {x}, // INV{no}', line)
            if rm is not None or auto: hook = len(self.out) - 1
        flags = ([brk] if brk else []) + ([rm[1]] if rm is not None else [])
        d = spec.dec or dec
        if d:
            pre = f'(if {" || ".join(flags)} {{ 0int }} else {{ 1int }}), ' if flags else ''
            self.emit(f'decreases {pre}{p.text_sub(d)},', line)
        self.ind -= 1
        self.emit('{', line)
        self.ind += 1
        self.bodystart = getattr(self, 'bodystart', []); self.bodystart.append((len(self.out), hook, no))
        if spec.ghost: self.emit(p.text_sub(spec.ghost), line)
        if spec.start: self.emit(f'proof {{ {p.text_sub(spec.start)} }}', line)
        return d is not None

    def close_loop(self, spec, line):
        if spec.end: self.emit(f'proof {{ {self.p.text_sub(spec.end)} }}', line)
        self.bodystart.pop()
        self.ind -= 1
        self.emit('}')
        if spec.after: self.emit(f'proof {{ {self.p.text_sub(spec.after)} }}', line)

    def has(self, n, kinds, stop=('LambdaExpr',)):
        """does loop body contain break/continue belonging to this loop"""
        if n is None or not isinstance(n, (dict, list)): return False
        if isinstance(n, list): return any(self.has(x, kinds) for x in n)
        if n.get('k') in kinds: return True
        if n.get('k') in ('LambdaExpr',): return False
        if n.get('k') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'): return False
        if n.get('k') == 'SwitchStmt' and 'BreakStmt' in kinds: return False
        return any(self.has(v, kinds) for v in n.values() if isinstance(v, (dict, list)))

    def counters(self, loop, iv):
        """invariants of variables that count the iterations: set to a literal beside the loop, incremented once in each iteration"""
        def nodes(n, straight=True):
            if isinstance(n, list):
                for x in n: yield from nodes(x, straight)
            elif isinstance(n, dict):
                if 'k' in n: yield n, straight
                s = straight and n.get('k') not in ('IfStmt', 'ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'SwitchStmt', 'LambdaExpr', 'ConditionalOperator') and n.get('op') not in ('&&', '||')
                for v in n.values():
                    if isinstance(v, (dict, list)): yield from nodes(v, s)
        def lit(n):
            n = strip_casts(n or {})
            if n.get('k') == 'UnaryOperator' and n['op'] == '-':
                x = lit(n['c'][0]); return None if x is None else -x
            return int(n['v']) if n.get('k') == 'IntegerLiteral' else None
        res = []
        fb = self.fn.get('body')
        for c, _ in nodes(fb):
            if c['k'] != 'CompoundStmt' or not any(x is loop for x in c['c']): continue
            for st in c['c']:
                if st is loop: break
                if not isinstance(st, dict) or st.get('k') != 'DeclStmt': continue
                for d in st['decls']:
                    c0 = lit(d.get('init')) if d.get('k') == 'VarDecl' and not parse(d['t']).const else None
                    if c0 is None or d['id'] not in self.env: continue
                    uses = [x for x, _ in nodes(fb) if x['k'] == 'UnaryOperator' and x['op'] in ('++', '--', '&') and strip_casts(x['c'][0]).get('id') == d['id']]
                    rest = [x for x, _ in nodes(fb) if x['k'] in ('BinaryOperator', 'CompoundAssignOperator') and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>=') and strip_casts(x['c'][0]).get('id') == d['id']]
                    if len(uses) != 1 or uses[0]['op'] != '++' or rest: continue
                    b = loop['body']
                    for ch in b['c'] if b.get('k') == 'CompoundStmt' else [b]:
                        if any(x is uses[0] and s for x, s in nodes(ch)):
                            e = self.env[d['id']]
                            e = e() if callable(e) else e
                            res.append(f'{e.e} == {iv} + {c0}')
                            break
                        if self.has(ch, ('ContinueStmt', 'GotoStmt')): break
        return res

    def mkbrk(self, body, no, spec):
        if self.has(body, ('BreakStmt',)):
            b = f'brk{no}'
            self.mutroots.add(b); self.used.add(b)
            self.emit(f'let ghost mut {b}: bool = false;')
            return b
        if any(re.search(r'\bbrk%d\b' % no, str(t)) for t in vars(spec).values()):
            # the annotations talk about a break that the loop no longer has
            self.used.add(f'brk{no}')
            self.emit(f'let ghost brk{no}: bool = false;')
        return None

    def s_CXXForRangeStmt(self, n):
        if 'init' in n: self.st(n['init'])
        line = n['l']
        spec, no = self.loop_spec()
        r = self.ex(n['range'])
        k = self.p.kind(r.t)
        rn, i_ = f'rng{no}', f'i{no}'
        self.used |= {rn, i_}
        self.mutroots.add(i_)
        rlv = r.lv
        if k == 'str': et = parse('char')
        elif k in ('vec',): et = r.t.args[0]
        elif k == 'map':
            et = parse(f'std::pair<{r.t.args[0].raw}, {r.t.args[1].raw}>')
            r = V(f'map_entries({r.e})', r.t); rlv = None
        elif k == 'set':
            et = r.t.args[0]
            r = V(f'set_entries({r.e})', r.t); rlv = None
        elif r.t.arr is not None: et = T(r.t.name, r.t.args, r.t.const, r.t.quals)
        else:
            et, r = M.range_seq(self, r, n)
            rlv = None
        self.emit(f'let ghost {rn}: Seq<{self.p.vt(et)}> = {r.e};', line)
        brk = self.mkbrk(n['body'], no, spec)
        self.emit(f'let ghost mut {i_}: int = 0;', line)
        auto = [f'0 <= {i_} <= {rn}.len()'] + self.counters(n, i_)
        d = n['var']
        vt = parse(d['t'])
        mutable_alias = vt.ref == '&' and not vt.const and rlv is not None and self.root(rlv) in self.mutroots and 'bindings' not in d and self.assigned_in(n['body'], d['id'])
        if mutable_alias:
            rlv = self.freeze(rlv)
            auto.append(f'{self.cur(rlv)}.len() == {rn}.len()')
        self.open_loop(f'{i_} < {rn}.len()', spec, no, auto, f'{rn}.len() - {i_}', line, brk)
        self.loopstack.append(('range', brk, None, spec))
        self.loopguard = getattr(self, 'loopguard', [])
        saved = dict(self.env)
        self.emit(f'proof {{ {i_} = {i_} + 1; }}', line)
        if mutable_alias:
            lv = ('idx', rlv, f'{i_} - 1')
            self.env[d['id']] = (lambda: V(self.cur(lv), et, lv))
        elif 'bindings' in d:
            e = self.fresh('el'); self.emit(f'let ghost {e} = {rn}[{i_} - 1];', line)
            if self.p.kind(et) == 'pair':
                for j, b in enumerate(d['bindings']):
                    nm = self.name(b['n'])
                    self.emit(f'let ghost {nm} = {e}.{j};', line)
                    self.env[b['id']] = (lambda nm=nm, j=j: V(nm, et.args[j]))
            else: raise Unsupported('structured binding in range-for')
        else:
            nm = self.pick_name(d['n'], self.p.vt(et))
            byval = not vt.ref
            if byval: self.mutroots.add(nm)
            self.emit(f'let ghost {"mut " if byval else ""}{nm}: {self.p.vt(et)} = {rn}[{i_} - 1];', line)
            self.env[d['id']] = (lambda: V(nm, et if self.p.kind(et) != 'rec' else et, ('var', nm) if byval else None))
        if rlv is not None and not mutable_alias and self.root(rlv) in self.mutroots:
            # mutation of the range while iterating would invalidate the hidden iterators
            start = len(self.out)
            self.st(n['body'])
            rt_ = self.root(rlv)
            pat = re.compile(r'proof \{ %s = ' % re.escape(rt_))
            if any(pat.match(o[1]) for o in self.out[start:]):
                self.assert_(f'{self.cur(rlv)} == {rn}', 'container not modified while iterated')
        else:
            self.st(n['body'])
        self.env = saved
        self.loopstack.pop()
        self.close_loop(spec, line)

    def assigned_in(self, n, vid, elem=False):
        """conservative: is variable vid used as non-const object/argument/assign target (elem: or one of its elements)"""
        if isinstance(n, list): return any(self.assigned_in(x, vid, elem) for x in n)
        if not isinstance(n, dict): return False
        def base_is(x):
            x = strip_casts(x)
            while isinstance(x, dict) and (x.get('k') in ('MemberExpr', 'ArraySubscriptExpr') or elem and x.get('k') == 'CXXOperatorCallExpr' and x['op'] in ('[]', '*')):
                x = strip_casts(x['args'][0] if 'args' in x else x['e'] if 'e' in x else x['c'][0])
            return isinstance(x, dict) and x.get('k') == 'DeclRefExpr' and x.get('id') == vid
        k = n.get('k')
        if k == 'CompoundStmt' and any(d.get('k') == 'VarDecl' and parse(d['t']).ref == '&' and not parse(d['t']).const and base_is(d.get('init') or {}) and self.assigned_in(n, d['id'], elem) for x in n['c'] if isinstance(x, dict) and x.get('k') == 'DeclStmt' for d in x['decls']): return True
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') and base_is(n['c'][0]): return True
        if k == 'UnaryOperator' and n['op'] in ('++', '--', '&') and base_is(n['c'][0]): return True
        if k == 'CXXMemberCallExpr' and n.get('obj') and base_is(n['obj']) and not n['fn'].get('const'): return True
        if k == 'CXXOperatorCallExpr' and n['args'] and base_is(n['args'][0]) and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='): return True
        return any(self.assigned_in(v, vid, elem) for v in n.values() if isinstance(v, (dict, list)))

    def s_WhileStmt(self, n):
        line = n['l']
        spec, no = self.loop_spec()
        brk = f'brk{no}'
        # evaluate the condition at the loop head; if it has effects, use the brk flag
        save = (list(self.out), self.tmp, self.count())
        probe_env = dict(self.env)
        haseff = False
        if 'var' in n: haseff = True
        else:
            start = len(self.out)
            c = self.to_bool(self.ex(n['cond']))
            haseff = any(not o[1].startswith('assert(') for o in self.out[start:])
            asserts = self.out[start:]
        self.out = save[0]
        self.env = probe_env
        if not haseff:
            b = self.mkbrk(n['body'], no, spec)
            self.out += asserts
            self.open_loop(c, spec, no, [], None, line, b)
            self.loopstack.append(('while', b, asserts, spec))
            saved = dict(self.env)
            self.st(n['body'])
            self.env = saved
            self.loopstack.pop()
            self.out += [(self.ind, a[1], a[2]) for a in asserts]
            self.close_loop(spec, line)
            return
        self.mutroots.add(brk); self.used.add(brk)
        self.emit(f'let ghost mut {brk}: bool = false;')
        self.open_loop('true', spec, no, [], None, line, brk)
        self.loopstack.append(('while', brk, None, spec))
        saved = dict(self.env)
        if 'var' in n: self.decl(n['var'])
        c = self.to_bool(self.ex(n['cond']))
        self.emit(f'if br(Ghost(!({c}))) {{ proof {{ {brk} = true; }} continue; }}')
        self.st(n['body'])
        self.env = saved
        self.loopstack.pop()
        self.close_loop(spec, line)

    def count(self): return self.p.count_asserts

    def s_DoStmt(self, n):
        line = n['l']
        spec, no = self.loop_spec()
        brk = f'brk{no}'
        self.mutroots.add(brk); self.used.add(brk)
        self.emit(f'let ghost mut {brk}: bool = false;')
        self.open_loop('true', spec, no, [], None, line, brk)
        if self.has(n['body'], ('ContinueStmt',)): raise Unsupported('continue in do-while')
        self.loopstack.append(('do', brk, None, spec))
        saved = dict(self.env)
        self.st(n['body'])
        c = self.to_bool(self.ex(n['cond']))
        self.emit(f'if br(Ghost(!({c}))) {{ proof {{ {brk} = true; }} continue; }}')
        self.env = saved
        self.loopstack.pop()
        self.close_loop(spec, line)

    def auto_dec(self, n):
        """decreases measure of the usual counting loops"""
        c, inc = n.get('cond'), n.get('inc')
        if not c or not inc: return None
        c = strip_casts(c)
        if c.get('k') != 'BinaryOperator' or c['op'] not in ('<', '<=', '!=', '>', '>='): return None
        a, b = (strip_casts(x) for x in c['c'])
        u = strip_casts(inc)
        if u.get('k') != 'UnaryOperator' or u['op'] not in ('++', '--'): return None
        v = strip_casts(u['c'][0])
        if v.get('k') != 'DeclRefExpr' or a.get('id') != v.get('id'): return None
        at = self.snap()
        self.pure += 1
        try: ea, eb = self.ex(c['c'][0]).e, self.ex(c['c'][1]).e
        except Unsupported:
            self.restore(at); return None
        finally: self.pure -= 1
        return f'{eb} - {ea}' if u['op'] == '++' else (f'{ea} - {eb}' if c['op'] != '>=' else f'{ea} - {eb} + 1')

    def iter_loop(self, n):
        """for (auto it = X.begin(), end = X.end(); it != end; ++it) with it only dereferenced -> the range-for over X it stands for"""
        i, c, inc = n.get('init'), strip_casts(n.get('cond') or {}), strip_casts(n.get('inc') or {})
        if not i or i.get('k') != 'DeclStmt' or not 1 <= len(i['decls']) <= 2: return None
        def bare(x):
            if isinstance(x, dict): x = strip_casts(x); return {k: bare(v) for k, v in x.items() if k not in ('l', 't')}
            return [bare(v) for v in x] if isinstance(x, list) else x
        def strip(x):
            x = strip_casts(x) if x else {}
            while isinstance(x, dict) and x.get('k') in ('CXXConstructExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr') and (x.get('e') or len(x.get('args', ())) == 1): x = strip_casts(x.get('e') or x['args'][0])
            return x
        def call(x, names):
            x = strip(x)
            nm = (x.get('fn') or {}).get('n', '').split('::')[-1]
            if x.get('k') == 'CXXMemberCallExpr' and not x['args'] and x.get('obj') and nm.endswith('_' + names[0]):   # x->foo_begin() .. x->foo_end(): x->foos()
                q = x['fn']['n'][:-len(names[0]) - 1] + 's'
                return dict(x, fn=dict(x['fn'], n=q, key=q + '()'), t='clang::' + nm[:-len(names[0]) - 1] + '_range')
            if nm not in names: return None
            if x.get('k') == 'CXXMemberCallExpr' and not x['args'] and x.get('obj') and not x.get('objptr'): return x['obj']
            if x.get('k') == 'CallExpr' and x['fn']['n'].startswith('std::') and len(x.get('args', ())) == 1: return x['args'][0]
            return None
        it = i['decls'][0]; x = call(it.get('init'), ('begin', 'cbegin'))
        if x is None: return None
        if c.get('k') == 'UnaryOperator' and c['op'] == '!' and strip(c['c'][0]).get('op') == '==': c = dict(strip(c['c'][0]), op='!=')
        ab = c.get('args') if c.get('k') == 'CXXOperatorCallExpr' else c.get('c') if c.get('k') == 'BinaryOperator' else None
        if not ab or c.get('op') != '!=' or strip(ab[0]).get('id') != it['id']: return None
        if len(i['decls']) == 2:
            e = i['decls'][1]; y = call(e.get('init'), ('end', 'cend'))
            if strip(ab[1]).get('id') != e['id']: return None
        else: y = call(ab[1], ('end', 'cend'))
        if y is None or bare(x) != bare(y): return None
        u = inc.get('args') if inc.get('k') == 'CXXOperatorCallExpr' else inc.get('c') if inc.get('k') == 'UnaryOperator' else None
        if not u or inc.get('op') != '++' or strip(u[0]).get('id') != it['id']: return None
        el = {'k': 'DeclRefExpr', 'dk': 'local', 'id': ('el', it['id']), 'n': it['n'] + 'v', 'l': n['l']}
        ty = []
        ids = {d['id'] for d in i['decls']}
        class No(Exception): pass
        def conv(x):
            if isinstance(x, list): return [conv(v) for v in x]
            if not isinstance(x, dict): return x
            a = x.get('args') if x.get('k') == 'CXXOperatorCallExpr' else x.get('c') if x.get('k') == 'UnaryOperator' else None
            if a and len(a) == 1 and x.get('op') in ('*', '->') and strip(a[0]).get('id') == it['id'] and strip(a[0]).get('k') == 'DeclRefExpr':
                if x['op'] == '->': return {'k': 'UnaryOperator', 'op': '&', 'c': [dict(el, t=re.sub(r' ?\*$', '', x['t']))], 't': x['t'], 'l': x['l']}
                ty.append(x['t']); return dict(el, t=x['t'])
            if x.get('k') == 'DeclRefExpr' and x.get('id') in ids: raise No()
            return {k: conv(v) for k, v in x.items()}
        try: body = conv(n['body'])
        except No: return None
        if not ty: return None
        return {'k': 'CXXForRangeStmt', 'range': x, 'body': body, 'l': n['l'], 'var': {'k': 'VarDecl', 'id': el['id'], 'n': el['n'], 't': ty[0] + ' &'}}

    def touched(self, body, x, elem=False):
        """may the loop change what it runs over (elem: including the elements)"""
        def ids(y):
            if isinstance(y, dict):
                if y.get('k') == 'DeclRefExpr': yield y.get('id')
                if y.get('k') == 'CXXThisExpr': yield 'this'
                for v in y.values(): yield from ids(v)
            elif isinstance(y, list):
                for v in y: yield from ids(v)
        r = set(ids(x))
        return ('this' in r and not elem) or any(self.assigned_in(body, i, elem) or i in set(ids(body)) and self.passed(body, i) for i in r)

    def passed(self, n, vid):
        """is the variable handed to a call by non-const reference"""
        if isinstance(n, list): return any(self.passed(x, vid) for x in n)
        if not isinstance(n, dict): return False
        if n.get('k') in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'LambdaExpr'):
            for a, t in zip(n.get('args', []), (n.get('fn') or {}).get('pt', [])):
                t = parse(t)
                if t.ref and not t.const and strip_casts(a).get('id') == vid: return True
            if n['k'] == 'LambdaExpr': return True
        return any(self.passed(v, vid) for v in n.values() if isinstance(v, (dict, list)))

    def counted(self, n):
        """for (i = 0; i < X.size(); ++i) -> (id of i, X)"""
        i, c, inc = n.get('init'), strip_casts(n.get('cond') or {}), strip_casts(n.get('inc') or {})
        if not i or i.get('k') != 'DeclStmt' or not 1 <= len(i['decls']) <= 2: return None
        v = i['decls'][0]; z = strip_casts(v.get('init') or {})
        if c.get('k') != 'BinaryOperator' or c['op'] not in ('<', '!=') or strip_casts(c['c'][0]).get('id') != v['id']: return None
        if inc.get('k') != 'UnaryOperator' or inc['op'] != '++' or strip_casts(inc['c'][0]).get('id') != v['id']: return None
        e = strip_casts(c['c'][1])
        if len(i['decls']) == 2:
            if e.get('id') != i['decls'][1]['id']: return None
            e = strip_casts(i['decls'][1].get('init') or {})
        if e.get('k') == 'CXXMemberCallExpr' and e['fn']['n'].split('::')[-1] in ('size', 'length') and e.get('obj') and not e.get('objptr'): return v, e['obj']
        return None

    def s_ForStmt(self, n):
        line = n['l']
        named = self.loopno < len(self.loops) and re.search(r'\b(i|rng)%d\b' % self.loopno, ' '.join(map(str, vars(self.loops[self.loopno]).values())))
        if named or self.loopno >= len(self.loops):
            r = self.iter_loop(n)
            if r is not None: return self.s_CXXForRangeStmt(r)
        saved0 = dict(self.env)
        if n.get('init'): self.st(n['init'])
        spec, no = self.loop_spec()
        autoinv = []
        cx = self.counted(n)
        if cx is not None and not self.assigned_in(n['body'], cx[0]['id']):
            iv = self.env[cx[0]['id']]().e
            if strip_casts(cx[0].get('init') or {}).get('k') == 'IntegerLiteral': autoinv = [f'0 <= {iv}']
            start = len(self.out)
            x = self.ex(cx[1])
            if self.p.kind(x.t) in ('vec', 'str') and autoinv:
                if x.lv is None or self.root(x.lv) not in self.mutroots or not self.touched(n['body'], cx[1]):
                    autoinv.append(f'{iv} <= {x.e}.len()')
                if named:
                    rn = f'rng{no}'
                    self.used.add(rn)
                    self.emit(f'let ghost {rn}: {"Str" if self.p.kind(x.t) == "str" else "Seq<" + self.p.vt(x.t.args[0]) + ">"} = {x.e};', line)
                    autoinv += [f'{iv} <= {rn}.len()', f'{x.e} == {rn}' if x.lv is None or self.root(x.lv) not in self.mutroots or not self.touched(n['body'], cx[1], True) else f'{x.e}.len() == {rn}.len()']
                    def sub(t, to): return re.sub(r'\bi%d\b' % no, to, t) if isinstance(t, str) else t
                    spec = Loop(inv=[sub(t, iv) for t in spec.inv], dec=sub(spec.dec, iv), start=sub(spec.start, iv), end=sub(spec.end, f'({iv} + 1)'), before=sub(spec.before, iv), after=sub(spec.after, iv), pre=spec.pre, ghost=sub(spec.ghost, iv))
            else: del self.out[start:]
        b = self.mkbrk(n['body'], no, spec)
        start = len(self.out)
        c = self.to_bool(self.ex(n['cond'])) if n.get('cond') else 'true'
        if any(not o[1].startswith('assert(') for o in self.out[start:]): raise Unsupported('effects in for condition')
        asserts = self.out[start:]
        self.open_loop(c, spec, no, autoinv, self.auto_dec(n), line, b)
        self.loopstack.append(('for', b, n.get('inc'), spec))
        saved = dict(self.env)
        self.st(n['body'])
        self.env = saved
        if spec.end: self.emit(f'proof {{ {self.p.text_sub(spec.end)} }}', line)
        if n.get('inc'): self.ex(n['inc'])
        self.out += [(self.ind, a[1], a[2]) for a in asserts]
        self.loopstack.pop()
        self.bodystart.pop()
        self.ind -= 1
        self.emit('}')
        if spec.after: self.emit(f'proof {{ {self.p.text_sub(spec.after)} }}', line)
        self.env = saved0

    def s_ContinueStmt(self, n):
        top = [x for x in self.loopstack if x != 'switch'][-1]
        kind, brk, inc, spec = top
        if kind == 'for':
            if spec.end: self.emit(f'proof {{ {self.p.text_sub(spec.end)} }}')
            if inc: self.ex(inc)
        elif spec.end: self.emit(f'proof {{ {self.p.text_sub(spec.end)} }}')
        self.emit('continue;')

    def s_BreakStmt(self, n):
        if self.loopstack and self.loopstack[-1] == 'switch': raise Unsupported('break inside switch')
        kind, brk, inc, spec = self.loopstack[-1]
        self.emit(f'proof {{ {brk} = true; }}')
        self.emit('continue;')

    def s_SwitchStmt(self, n):
        c = self.bind(self.ex(n['cond']))
        body = n['body']['c']
        # only groups of cases each ending in return/break
        groups = []
        cur = None
        for s in body:
            labels = []
            while s is not None and s['k'] in ('CaseStmt', 'DefaultStmt'):
                labels.append('default' if s['k'] == 'DefaultStmt' else self.ex(s['lhs']).e)
                s = s['sub']
            if labels:
                if cur is not None and not cur[1]: cur[0] += labels
                else:
                    if cur is not None and not self.ends(cur[1]): raise Unsupported('switch fallthrough')
                    cur = [labels, []]; groups.append(cur)
            if s is not None and s['k'] != 'NullStmt': cur[1].append(s)
        first = True
        default = None
        chain = []
        for labels, stmts in groups:
            body_ = [s for s in stmts]
            if body_ and body_[-1]['k'] == 'BreakStmt': body_ = body_[:-1]
            elif body_ and body_[-1]['k'] == 'CompoundStmt' and body_[-1]['c'] and body_[-1]['c'][-1]['k'] == 'BreakStmt':
                body_ = body_[:-1] + [dict(body_[-1], c=body_[-1]['c'][:-1])]
            if any(self.has(x, ('BreakStmt',)) for x in body_): raise Unsupported('inner break in switch')
            if 'default' in labels:
                default = body_; continue
            chain.append((' || '.join(f'{c.e} == {l}' for l in labels), body_))
        for i, (cond, body_) in enumerate(chain):
            self.emit(('} else ' if i else '') + f'if br(Ghost({cond})) {{')
            self.ind += 1
            saved = dict(self.env)
            self.st_list(body_)
            self.env = saved
            self.ind -= 1
        if default is not None:
            if chain:
                self.emit('} else {'); self.ind += 1
            self.st_list(default)
            if chain: self.ind -= 1
        if chain: self.emit('}')

    def ends(self, stmts):
        if not stmts: return False
        s = stmts[-1]
        if s['k'] in ('BreakStmt', 'ReturnStmt', 'ContinueStmt'): return True
        if s['k'] == 'CompoundStmt': return self.ends(s['c'])
        return self.always_returns(s)

    # ---------- whole function
    def run(self):
        p, fn, c = self.p, self.fn, self.c
        params = []
        head = []
        pnames = c.params or [sane(x['n']) or f'p{i}' for i, x in enumerate(fn['params'])]
        self.outs = []
        ret_types = []
        pre = []
        method = fn.get('method') and not fn.get('static')
        rt = parse(fn['rt'])
        if method:
            tt = T(fn['rec'])
            rn = p.vt(tt) if fn['rec'] in p.unit.records else 'int'
            params.append(('self_', rn))
            mutthis = (c.mut is not None and 'this' in c.mut) or (c.mut is None and not fn.get('const'))
            if mutthis:
                pre.append(f'let ghost self_in = self_; let ghost mut self_: {rn} = self_;')
                self.mutroots.add('self_'); self.outs.append('self_'); ret_types.append(('self_out', rn))
                self.env['this'] = lambda: V('self_', tt, ('var', 'self_'))
            else:
                self.env['this'] = lambda: V('self_', tt)
        for i, x in enumerate(fn['params']):
            t = parse(x['t'])
            nm = sane(pnames[i])
            self.used.add(nm)
            vt = c.ptypes.get(nm) or p.vt(t)
            params.append((nm, vt))
            ismut = (c.mut is not None and i in c.mut) or (c.mut is None and t.ref == '&' and not t.const and not t.is_ptr())
            tv = t.noref()
            if ismut:
                pre.append(f'let ghost {nm}_in = {nm}; let ghost mut {nm}: {vt} = {nm};')
                self.mutroots.add(nm); self.outs.append(nm); ret_types.append((nm + '_out', vt))
                self.env[x['id']] = (lambda nm=nm, tv=tv: V(nm, tv, ('var', nm)))
            elif not t.ref and (not t.const or t.is_ptr()):
                pre.append(f'let ghost {nm}_in = {nm}; let ghost mut {nm}: {vt} = {nm};')
                self.mutroots.add(nm)
                self.env[x['id']] = (lambda nm=nm, tv=tv: V(nm, tv, ('var', nm)))
            else:
                self.env[x['id']] = (lambda nm=nm, tv=tv: V(nm, tv))
        for s in c.statics:
            nm, vt = s, c.statics[s]
            params.append((nm, vt))
            pre.append(f'let ghost {nm}_in = {nm}; let ghost mut {nm}: {vt} = {nm};')
            self.mutroots.add(nm); self.outs.append(nm); ret_types.append((nm + '_out', vt)); self.used.add(nm)
        rvt = p.vt(rt)
        self.sig(head, params, rvt, ret_types)
        if c.hints.get('entry'): pre.append(f'proof {{ {p.text_sub(c.hints["entry"])} }}')
        body = []
        for u in c.uses: self.emit(f'broadcast use {u};', fn['line'])
        for s in pre: self.emit(s, fn['line'])
        if fn.get('ctor') and 'self_' in self.mutroots:
            # member initializers, in initialization order; fields the contract's record doesn't list are dropped
            known = [x[0] for x in p.all_fields(fn['rec'])]
            for i in fn.get('inits', []):
                if i.get('field') in known:
                    fv = self.field_v(self.env['this'](), i['field'])
                    self.assign(fv.lv, self.coerce(self.ex(i['e']), fv.t))
        self.st_list(fn['body']['c'], True)
        if p.kind(rt) == 'void' and not (fn['body']['c'] and fn['body']['c'][-1]['k'] == 'ReturnStmt'):
            self.line = fn.get('endline', fn['line'])
            self.emit_return(None, self.line)
        elif p.kind(rt) != 'void' and not self.always_returns(fn['body']):
            self.emit('unreached_(); loop decreases 0int { }' if False else 'assert(false); // RT: control reaches the end of a non-void function')
            self.emit('return Ghost(arbitrary());')
        return head, self.out

    def sig(self, head, params, rvt, ret_types):
        p, c, fn = self.p, self.c, self.fn
        head.append((0, f'#[verifier::loop_isolation(false)]', fn['line']))
        head.append((0, '#[verifier::exec_allows_no_decreases_clause]', fn['line']))
        if c.rlimit: head.append((0, f'#[verifier::rlimit({c.rlimit})]', fn['line']))
        for a in c.attrs: head.append((0, a, fn['line']))
        ret = rvt if not ret_types else '(' + ', '.join([rvt] + [x[1] for x in ret_types]) + ')'
        if getattr(c, 'external', False): head.append((0, '#[verifier::external_body]', fn['line']))
        head.append((0, f'fn {p.vname(fn)}(' + ', '.join(f'Ghost({n}): Ghost<{t}>' for n, t in params) + f') -> (r_: Ghost<{ret}>)', fn['line']))
        if c.requires:
            head.append((1, 'requires', fn['line']))
            for r in c.requires: head.append((2, f'{p.text_sub(r)}, // REQ', fn['line']))
        if c.ensures:
            head.append((1, 'ensures', fn['line']))
            names = ['ret'] + [x[0] for x in ret_types]
            pat = names[0] if len(names) == 1 else '(' + ', '.join(names) + ')'
            for r in c.ensures: head.append((2, f'({{ let {pat} = r_@; {p.text_sub(r)} }}), // ENS', fn['line']))
        if c.decreases: head.append((1, f'decreases {p.text_sub(c.decreases)},', fn['line']))
