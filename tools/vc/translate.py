"""Mechanical translation of clang-resolved C++ function bodies (JSON from cxxast) into
Verus exec functions over ghost values.  Everything the C++ program computes becomes a
ghost (mathematical) value; control flow is kept as control flow.  Anything that is not
understood raises Unsupported: the function is then *not proved*."""
import re, hashlib
from .ctypes_ import parse, T, INTS, STRS, VECS, MAPS, SETS, MMAPS
from . import models as M

class Unsupported(Exception):
    pass

RESERVED = set('''has is matches exists forall proof spec exec ghost tracked open closed self type match move ref in fn final
as break const continue crate else enum extern false for if impl let loop mod mut pub return static struct super trait true unsafe use where while
async await dyn abstract become box do macro override priv typeof unsized virtual yield try decreases requires ensures invariant by assert assume via when
choose int nat global'''.split())

def sane(n):
    n = re.sub(r'[^A-Za-z0-9_]', '_', n)
    if n in RESERVED or not n or n[0].isdigit(): n = n + '_'
    return n

class V:
    """A translated value: verus expression, C++ type, optional l-value, optional iterator container."""
    __slots__ = ('e', 't', 'lv', 'cont', 'k', 'extra')
    def __init__(self, e, t, lv=None, cont=None, k=None, extra=None):
        self.e, self.t, self.lv, self.cont, self.k, self.extra = e, t, lv, cont, k, extra

class Fn:
    """Contract of a function.  Text is Verus.  Placeholders: parameter names, `ret`
    (result), `<p>_out` for mutated reference parameters, self_/self_out."""
    def __init__(self, requires=(), ensures=(), loops=(), params=None, locals=None, hints=None, decreases=None, mut=None, inline=False,
                 external=False, ret=None, rlimit=None, nowrap=True, nullcheck=True, ptypes=None, name=None, pure=None, sig=None, thistype=None, attrs=(), statics=(), ltypes=None, uses=()):
        self.uses = uses
        self.requires, self.ensures, self.loops = list(requires), list(ensures), list(loops)
        self.params, self.locals, self.hints = params, locals or {}, hints or {}
        self.decreases, self.mut, self.inline, self.external, self.ret, self.rlimit = decreases, mut, inline, external, ret, rlimit
        self.nowrap, self.nullcheck, self.ptypes, self.name, self.pure, self.sig = nowrap, nullcheck, ptypes or {}, name, pure, sig
        self.thistype = thistype
        self.attrs = attrs
        self.statics = statics
        self.ltypes = ltypes or {}

class Loop:
    def __init__(self, inv=(), dec=None, start='', end='', before='', after='', pre='', ghost=''):
        self.pre, self.ghost = pre, ghost     # raw ghost declarations before the loop / at the start of an iteration
        self.inv, self.dec, self.start, self.end, self.before, self.after = list(inv), dec, start, end, before, after

class Unit:
    """All functions/records dumped for the translation units a property needs."""
    def __init__(self, dumps):
        self.fns = {}      # (dump index, id) -> fn
        self.bykey = {}
        self.byname = {}
        self.records = {}
        self.vars = {}
        for di, d in enumerate(dumps):
            for f in d['functions']:
                f['di'] = di
                self.fns[(di, f['id'])] = f
                self.bykey.setdefault(f['key'], f)
                self.byname.setdefault(f['n'], [])
                if all(g['key'] != f['key'] for g in self.byname[f['n']]) or f.get('inst'):
                    self.byname[f['n']].append(f)
            for k, r in d['records'].items(): self.records.setdefault(k, r)
            for k, v in d['vars'].items():
                if k not in self.vars or 'init' in v: self.vars[k] = v

def strip_casts(n):
    while isinstance(n, dict):
        k = n.get('k', '')
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'DefaultArg'): n = n['e']
        else: break
    return n

class Program:
    """Collects everything emitted for one property."""
    def __init__(self, unit, contracts, prelude='', byvalue=(), extmodels=None, fields=None, opaque=(), assumed=None, typemap=None, globals_=None):
        self.unit, self.contracts, self.prelude = unit, contracts, prelude
        self.byvalue = set(byvalue)
        self.typemap = {'std::basic_istringstream': 'IStream', **(typemap or {})}
        self.ext = extmodels or {}
        self.lits = {}
        self.uninterp = {}
        self.recfields = {}
        for r, fl in (fields or {}).items():
            self.recfields[r] = {f: None for f in fl}
        self.globals_ = {'llvm::StringRef::npos': 'npos()', **(globals_ or {})}
        self.lines = []          # (text, origin)
        self.unchecked = set()
        self.inlined = set()
        self.assumed_pure = set()
        self.ext_used = set()
        self.model_used = set()
        self.count_asserts = 0
        self.rectypes = {}

    # ---- types
    def kind(self, t):
        if t.ref: t = t.noref()
        if t.raw in self.typemap: return 'map:' + self.typemap[t.raw]
        if t.name in self.typemap and not t.is_ptr(): return 'map:' + self.typemap[t.name]
        if t.is_ptr():
            if t.name == 'char' and len(t.quals) == 1: return 'cstr'
            if len(t.quals) == 1 and t.name in self.byvalue: return 'rec'
            return 'ptr'
        if t.arr is not None: return 'cstr' if t.name == 'char' else 'vec1'
        if t.name == 'bool': return 'bool'
        if t.name in INTS: return 'int'
        if t.name == 'void': return 'void'
        if t.name in ('double', 'float'): return 'float'
        if t.name == 'std::nullptr_t': return 'ptr'
        if t.name in STRS: return 'str'
        if t.name in VECS: return 'vec'
        if t.name in MAPS: return 'map'
        if t.name in SETS: return 'set'
        if t.name in MMAPS: return 'mmap'
        if t.name == 'std::optional': return 'opt'
        if t.name in ('std::pair', 'std::tuple'): return 'pair'
        if t.name in ('std::unique_ptr', 'std::shared_ptr', 'clang::CustomizableOptional'):
            if t.name == 'clang::CustomizableOptional': return 'ptr'
            if t.args and t.args[0].name in self.byvalue: return 'rec'
            return 'ptr'
        if t.name in ('__gnu_cxx::__normal_iterator', 'std::_List_iterator') or 'iterator' in t.name: return 'iter'
        if t.name in self.unit.records: return 'rec'
        return 'opaque'

    def rec_of(self, t):
        if t.name in ('std::unique_ptr', 'std::shared_ptr') and not t.is_ptr(): return t.args[0].name
        return t.name

    def vt(self, t):
        k = self.kind(t)
        if k.startswith('map:'): return k[4:]
        if k == 'bool': return 'bool'
        if k in ('int', 'ptr', 'opaque', 'iter', 'float'): return 'int'
        if k == 'str': return 'Str'
        if k == 'cstr': return 'Option<Str>'
        if k == 'vec': return f'Seq<{self.vt(t.args[0])}>'
        if k == 'vec1': return f'Seq<{self.vt(T(t.name, t.args))}>'
        if k == 'map':
            if t.name == 'llvm::StringMap': return f'Map<Str, {self.vt(t.args[0])}>'
            return f'Map<{self.vt(t.args[0])}, {self.vt(t.args[1])}>'
        if k == 'set': return f'Set<{self.vt(t.args[0])}>'
        if k == 'mmap': return f'Seq<({self.vt(t.args[0])}, {self.vt(t.args[1])})>'
        if k == 'opt': return f'Option<{self.vt(t.args[0])}>'
        if k == 'pair': return '(' + ', '.join(self.vt(a) for a in t.args) + ')'
        if k == 'void': return '()'
        if k == 'rec':
            r = self.rec_of(t)
            self.rectypes[r] = True
            return self.recname(r)
        raise Unsupported(f'type {t.raw}')

    def recname(self, r):
        self.rectypes[r] = True
        return 'R_' + sane(r.replace('::', '_'))

    def field(self, rec, name):
        for base in self.rec_chain(rec):
            for f in self.unit.records[base]['fields']:
                if f['n'] == name:
                    self.recfields.setdefault(rec, {}).setdefault(name, None)
                    return parse(f['t'])
        raise Unsupported(f'no field {rec}::{name}')

    def rec_chain(self, rec):
        out = [rec]
        if rec not in self.unit.records: return []
        for b in self.unit.records[rec]['bases']:
            out += self.rec_chain(b)
        return out

    def emit_records(self):
        out = []
        done = set()
        changed = True
        while changed:
            changed = False
            for r in list(self.rectypes):
                if r in done: continue
                done.add(r); changed = True
                fl = []
                for base in self.rec_chain(r):
                    for f in self.unit.records[base]['fields']:
                        if f['n'] in self.recfields.get(r, {}):
                            ft = self.recfields[r][f['n']] or self.vt(parse(f['t']))
                            fl.append(f'pub {sane(f["n"])}: {ft}')
                for fn_, ty in self.recfields.get(r, {}).items():
                    if ty and not any(x.startswith(f'pub {sane(fn_)}:') for x in fl):
                        fl.append(f'pub {sane(fn_)}: {ty}')
                for fn_ in self.recfields.get(r, {}):
                    if not any(x.startswith(f'pub {sane(fn_)}:') for x in fl):
                        raise Unsupported(f'record {r} no longer has the field {fn_}')
                if not fl: fl = ['pub dummy_: int']
                out.append(f'pub struct {self.recname(r)} {{ ' + ', '.join(fl) + ' }')
        return out

    def all_fields(self, r):
        """names of emitted fields of r, in order (only valid when fields are declared up front)"""
        res = []
        for base in self.rec_chain(r):
            for f in self.unit.records[base]['fields']:
                if f['n'] in self.recfields.get(r, {}): res.append((f['n'], parse(f['t']), f.get('init')))
        return res

    def lit(self, bs):
        bs = tuple(bs)
        if not bs: return 'Seq::<int>::empty()'
        if bs not in self.lits:
            txt = ''.join(chr(b) if 32 <= b < 127 and (chr(b).isalnum()) else '_' for b in bs)[:24]
            h = hashlib.sha1(bytes(b & 255 for b in bs)).hexdigest()[:5]
            self.lits[bs] = f'lit_{txt}_{h}'
        return self.lits[bs] + '()'

    def uninterp_fn(self, name, argtys, rt):
        n = 'u_' + sane(name.replace('::', '_').replace('operator', 'op')) + f'_{len(argtys)}'
        sig = (tuple(argtys), rt)
        i = 0
        base = n
        while n in self.uninterp and self.uninterp[n] != sig:
            i += 1; n = f'{base}_{i}'
        self.uninterp[n] = sig
        return n

    def text_sub(self, s):
        """L"..." in contract text -> literal function call; C'x' -> int"""
        def rep(m):
            raw = m.group(1)
            bs = [b if b < 128 else b - 256 for b in raw.encode('utf8').decode('unicode_escape').encode('latin1')]
            return self.lit(bs)
        s = re.sub(r'L"((?:[^"\\]|\\.)*)"', rep, s)
        s = re.sub(r"C'(\\?.)'", lambda m: str(ord(m.group(1).encode().decode('unicode_escape'))), s)
        return s

    def default(self, t):
        k = self.kind(t)
        if k.startswith('map:'): return f'arbitrary::<{k[4:]}>()'
        if k == 'bool': return 'false'
        if k in ('int', 'ptr'): return '0int'
        if k == 'str': return 'Seq::<int>::empty()'
        if k == 'vec': return f'Seq::<{self.vt(t.args[0])}>::empty()'
        if k == 'map':
            return f'Map::<{self.vt(t)[4:-1]}>::empty()'
        if k == 'set': return f'Set::<{self.vt(t.args[0])}>::empty()'
        if k == 'mmap': return f'Seq::<({self.vt(t.args[0])}, {self.vt(t.args[1])})>::empty()'
        if k == 'opt': return f'None::<{self.vt(t.args[0])}>'
        if k == 'pair': return '(' + ', '.join(self.default(a) for a in t.args) + ')'
        if k == 'rec' and not t.is_ptr():
            return self.default_rec(t)
        return f'arbitrary::<{self.vt(t)}>()'

    def default_rec(self, t):
        r = self.rec_of(t)
        fs = self.all_fields(r)
        if not fs: return f'arbitrary::<{self.vt(t)}>()'
        parts = []
        for n, ft, init in fs:
            e = None
            if init is not None:
                x = strip_casts(init)
                if x.get('k') in ('IntegerLiteral', 'CXXBoolLiteralExpr'):
                    v = x['v']
                    e = ('true' if v else 'false') if isinstance(v, bool) else f'{v}int'
            parts.append(f'{sane(n)}: {e or self.default(ft)}')
        return f'{self.recname(r)} {{ ' + ', '.join(parts) + ' }'

    # ---- emission
    def find_fns(self, name):
        key = None
        if '(' in name and not name.startswith('('):
            fs = [f for k, f in self.unit.bykey.items() if self.short(k) == name]
            if not fs: fs = [f for k, f in self.unit.bykey.items() if k == name]
            return fs
        return self.unit.byname.get(name, [])

    @staticmethod
    def short(k):
        k = k.replace('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string')
        k = k.replace('std::basic_string_view<char, std::char_traits<char>>', 'string_view')
        k = re.sub(r', std::allocator<((?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*)>', '', k)
        return k

    def contract_for(self, fn):
        """fn: callee object or function object (has n, key)"""
        k = self.short(fn['key'])
        return self.contracts.get(k) or self.contracts.get(fn['n'])

    def vname(self, fn):
        c = self.contract_for(fn)
        if c is not None and c.name: return c.name
        n = sane(fn['n'].replace('::', '_'))
        alts = [f for f in self.unit.byname.get(fn['n'], []) if not f.get('inst')]
        if len(alts) > 1:
            n += '_' + hashlib.sha1(self.short(fn['key']).encode()).hexdigest()[:4]
        return 'f_' + n
