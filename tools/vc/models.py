"""Trusted models of the standard-library / LLVM-support operations the translated code uses.
Every model used by a property is listed in its evidence (trusted)."""
import re
from .ctypes_ import parse, T, INTS

TBOOL, TINT, TSIZE, TVOID = parse('bool'), parse('int'), parse('unsigned long'), parse('void')
TSTR = parse('std::basic_string<char>')

def is_raw_ostream(t):
    return t.name in ('llvm::raw_ostream', 'llvm::raw_fd_ostream', 'std::basic_ostream', 'llvm::raw_string_ostream')

def is_allocator_arg(a):
    t = a.get('t', '')
    return a.get('k') == 'DefaultArg' and ('std::allocator<' in t or 'std::hash' in t or 'std::equal_to' in t or 'std::less' in t or 'std::identity' in t)

def U():
    from .translate import Unsupported
    return Unsupported

def mk(*a, **k):
    from .translate import V
    return V(*a, **k)

def use(tr, what): tr.p.model_used.add(what)

def last(name): return name.split('::')[-1]

def begin_end_container(tr, a, b):
    """(container V) if a,b are begin/end of the same container"""
    return a.cont if a.cont is not None else None

def full_range(tr, a, b):
    """container V when [a,b) is known to be the whole container textually"""
    if a.cont is not None and b.cont is not None and a.e == '0int' and b.e == f'{b.cont.e}.len()' and a.cont.e == b.cont.e:
        return a.cont
    return None

def subseq(tr, a, b):
    c = full_range(tr, a, b)
    if c is not None: return c.e, 0, c
    if a.cont is None: raise U()(f'iterator range without known container ({tr.file}:{tr.line})')
    tr.assert_(f'0 <= {a.e} <= {b.e} <= {a.cont.e}.len()', 'iterator range valid')
    return f'{a.cont.e}.subrange({a.e}, {b.e})', a.e, a.cont

def elt(tr, c):
    return parse('char') if tr.p.kind(c.t) == 'str' else c.t.args[0]

def it(e, t, c):
    return mk(e, t, None, c, 'vecit')

def container_of(tr, v):
    return v

def append_to(tr, backins, seq_e):
    c = backins.extra
    tr.assign(c.lv, f'{tr.cur(c.lv)} + {seq_e}')

def algo(tr, name, vs, t, ranges):
    """std algorithms, in iterator-pair or ranges form"""
    if ranges:
        c = vs[0]
        if c.cont is not None:      # ranges algorithm on iterator pair
            seq, off, cont = subseq(tr, c, vs[1]); rest = vs[2:]
        else:
            if tr.p.kind(c.t) not in ('vec', 'str') and c.t.arr is None: 
                et_, c = range_seq(tr, c, None)
            seq, off, cont = c.e, 0, c; rest = vs[1:]
    else:
        if vs[0].cont is None: return None
        seq, off, cont = subseq(tr, vs[0], vs[1]); rest = vs[2:]
    rest = [r for r in rest if not (r.t.name == 'std::identity')]
    et = elt(tr, cont) if cont.t.arr is None else T(cont.t.name, cont.t.args, cont.t.const, cont.t.quals)
    evt = tr.p.vt(et)
    def pos(e): return e if off in (0, '0int') else f'({off} + {e})'
    use(tr, f'std::{name}')
    if name in ('any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'remove_if', 'copy_if', 'partition', 'stable_partition'):
        if name == 'copy_if':
            dst, f = rest[0], rest[1]
        else: f = rest[0]
        cl, _ = tr.closure(f, [et])
        if name in ('find_if_not', 'none_of') or name == 'remove_if' :
            ncl = re.sub(r'^(\|[^|]*\|) (.*)$', r'\1 !(\2)', cl, flags=re.S)
        if name == 'any_of': return mk(f'any_of({seq}, {cl})', TBOOL)
        if name == 'all_of': return mk(f'all_of({seq}, {cl})', TBOOL)
        if name == 'none_of': return mk(f'!any_of({seq}, {cl})', TBOOL)
        if name == 'find_if': return it(pos(f'find_idx({seq}, {cl})'), t, cont)
        if name == 'find_if_not': return it(pos(f'find_idx({seq}, {ncl})'), t, cont)
        if name == 'count_if': return mk(f'({seq}.filter({cl}).len() as int)', t)
        if name == 'copy_if':
            append_to(tr, dst, f'{seq}.filter({cl})')
            return mk('()', TVOID)
        if name == 'remove_if':
            return mk('?', t, None, cont, 'removed', f'{seq}.filter({ncl})')
    if name == 'find':
        x = tr.coerce(rest[0], et)
        n_ = tr.fresh('x')
        return it(pos(f'find_val({seq}, {x})'), t, cont)
    if name == 'count':
        x = tr.coerce(rest[0], et); n_ = tr.fresh('x')
        return mk(f'({seq}.filter(|{n_}: {evt}| {n_} == {x}).len() as int)', t)
    if name == 'copy':
        if rest[0].k == 'backins':
            append_to(tr, rest[0], seq); return mk('()', TVOID)
        return None
    if name == 'remove':
        x = tr.coerce(rest[0], et); n_ = tr.fresh('x')
        return mk('?', t, None, cont, 'removed', f'{seq}.filter(|{n_}: {evt}| {n_} != {x})')
    if name == 'sort':
        if rest:
            cl, _ = tr.closure(rest[0], [et, et])
            e = f'sort_by({seq}, {cl})'
        else:
            raise U()('std::sort without comparator')
        if cont.lv is None or off not in (0, '0int'): raise U()('sort target')
        tr.assign(cont.lv, e)
        return mk('()', TVOID)
    if name == 'unique':
        a, b = tr.fresh('x'), tr.fresh('x')
        if rest:
            cl, _ = tr.closure(rest[0], [et, et])
        else:
            eq = eq_text(tr, mk(a, et), mk(b, et))
            cl = f'|{a}: {evt}, {b}: {evt}| {eq}'
        return mk('?', t, None, cont, 'removed', f'unique_by({seq}, {cl})')
    if name == 'transform':
        dst, f = rest[0], rest[1]
        cl, r = tr.closure(f, [et])
        if dst.k == 'backins':
            append_to(tr, dst, f'map_seq({seq}, {cl})'); return mk('()', TVOID)
        if dst.cont is not None and dst.e == '0int' and dst.cont.lv is not None:
            tr.assert_(f'{dst.cont.e}.len() >= {seq}.len()', 'transform destination large enough')
            tr.assign(dst.cont.lv, f'map_seq({seq}, {cl}) + {dst.cont.e}.skip({seq}.len() as int)')
            return mk('()', TVOID)
        return None
    if name == 'is_sorted': return None
    if name == 'distance':
        return mk(f'({vs[1].e} - {vs[0].e})', t)
    if name in ('lower_bound', 'upper_bound'):
        x = rest[0]
        xe = tr.coerce(x, et)
        cl, _ = tr.closure(rest[1], [et, et]) if len(rest) > 1 else (None, None)
        if cl is None: raise U()('lower_bound without comparator')
        return it(pos(f'{name}({seq}, {xe}, {cl})'), t, cont)
    if name == 'for_each':
        return None
    return None

def eq_text(tr, a, b):
    """operator== for a root record type is inlined; otherwise structural"""
    if tr.p.kind(a.t) == 'rec':
        r = tr.p.rec_of(a.t)
        c = tr.p.unit.byname.get(f'{r}::operator==', [])
        if c:
            con = tr.p.contract_for(c[0])
            tr.pure += 1
            try: return tr.inline(c[0], a, [b], TBOOL).e
            finally: tr.pure -= 1
    return f'{a.e} == {b.e}'

ALGOS = {'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'remove_if', 'copy_if', 'find', 'count', 'copy', 'remove', 'sort', 'unique', 'transform', 'lower_bound', 'upper_bound', 'for_each', 'distance'}
RANGES_CPO = {'__any_of_fn': 'any_of', '__all_of_fn': 'all_of', '__none_of_fn': 'none_of', '__find_if_fn': 'find_if', '__find_if_not_fn': 'find_if_not',
              '__find_fn': 'find', '__copy_fn': 'copy', '__copy_if_fn': 'copy_if', '__sort_fn': 'sort', '__transform_fn': 'transform', '__count_if_fn': 'count_if',
              '__count_fn': 'count', '__lower_bound_fn': 'lower_bound', '__upper_bound_fn': 'upper_bound', '__for_each_fn': 'for_each', '__stable_sort_fn': 'sort'}

ISA = {'isa', 'isa_and_nonnull', 'isa_and_present', 'dyn_cast', 'dyn_cast_or_null', 'dyn_cast_if_present', 'cast', 'cast_or_null', 'cast_if_present'}

def builtin(tr, n, fn, obj, vs, t):
    name = fn['n']
    ln = last(name)
    if ln == 'operator()' and 'std::ranges' in name:
        for k, a in RANGES_CPO.items():
            if k in name: return algo(tr, a, vs, t, True)
        return None
    # casts
    if name.startswith('llvm::') and ln in ISA:
        return isa_model(tr, ln, fn, vs, t)
    if name.startswith('llvm::') and name.count('::') == 1 and ln in ('any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if') and obj is None:
        r = algo(tr, ln, vs, t, True)
        if r is not None: return r
    if name == 'llvm::is_contained' and len(vs) == 2 and (tr.p.kind(vs[0].t) in ('vec', 'str') or vs[0].t.arr is None):
        c = vs[0] if tr.p.kind(vs[0].t) in ('vec', 'str') else range_seq(tr, vs[0], None)[1]
        use(tr, 'llvm::is_contained')
        return mk(f'{c.e}.contains({tr.coerce(vs[1], elt(tr, c))})', TBOOL)
    if name.startswith('std::'):
        if ln in ALGOS and obj is None:
            r = algo(tr, ln, vs, t, False)
            if r is not None: return r
        if ln in ('move', 'forward', 'as_const', 'addressof', 'cref', 'ref') and len(vs) == 1: return vs[0]
        if ln == 'back_inserter':
            return mk('?', t, None, None, 'backins', vs[0])
        if ln in ('begin', 'cbegin', 'end', 'cend') and obj is None:
            return method(tr, n, ln, vs[0], [], t, fn)
        if ln in ('size', 'ssize', 'empty', 'data') and obj is None: return method(tr, n, 'size' if ln == 'ssize' else ln, vs[0], [], t, fn)
        if ln == 'make_pair': return mk('(' + ', '.join(v.e for v in vs) + ')', t)
        if ln == 'min' and len(vs) == 2:
            use(tr, 'std::min'); return mk(f'min_int({vs[0].e}, {vs[1].e})', t)
        if ln == 'max' and len(vs) == 2:
            use(tr, 'std::max'); return mk(f'max_int({vs[0].e}, {vs[1].e})', t)
        if ln == 'clamp' and len(vs) == 3:
            use(tr, 'std::clamp'); tr.assert_(f'{vs[1].e} <= {vs[2].e}', 'clamp bounds ordered')
            return mk(f'max_int({vs[1].e}, min_int({vs[0].e}, {vs[2].e}))', t)
        m_ = re.match(r'std::numeric_limits<(.*)>::(max|min|lowest)$', name)
        if m_ and parse(m_.group(1)).name in INTS:
            bits, signed = INTS[parse(m_.group(1)).name][:2]
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
            return mk(f'{hi if m_.group(2) == "max" else lo}int', t)
        if ln == 'strlen': return mk(f'({tr.to_str(vs[0])}.len() as int)', t)
        if ln == 'next':
            a = vs[0]; d = vs[1].e if len(vs) > 1 else '1int'
            return mk(f'({a.e} + {d})', a.t, None, a.cont, a.k)
        if ln == 'prev':
            a = vs[0]; d = vs[1].e if len(vs) > 1 else '1int'
            return mk(f'({a.e} - {d})', a.t, None, a.cont, a.k)
        if ln == 'to_string': 
            use(tr, 'std::to_string'); return mk(f'int_to_str({vs[0].e})', t)
        if ln == 'getline' and len(vs) == 3:
            use(tr, 'std::getline(istringstream, string, char)')
            st, tok, c = vs
            tr.assign(tok.lv, f'(if {st.e}.rest.len() == 0 {{ Seq::<int>::empty() }} else {{ {st.e}.rest.take(ch_idx({st.e}.rest, {c.e})) }})')
            ok = tr.fresh(); tr.emit(f'let ghost {ok} = {st.e}.rest.len() > 0; proof {{ lemma_ch_idx({st.e}.rest, {c.e}); }}')
            tr.assign(st.lv, f'IStream {{ rest: rest_after({st.e}.rest, {c.e}) }}')
            return mk(ok, TBOOL, None, None, 'streamok')
        if ln == 'operator bool' and obj is not None and obj.k == 'streamok': return mk(obj.e, TBOOL)
        if ln == 'swap' and obj is None:
            a, b = tr.bind(vs[0]), tr.bind(vs[1])
            tr.assign(vs[0].lv, b.e); tr.assign(vs[1].lv, a.e); return mk('()', TVOID)
    if ln in ('isspace', 'isalnum', 'isalpha', 'isdigit', 'isupper', 'islower', 'tolower', 'toupper', 'isxdigit', 'isprint') and obj is None and ('::' not in name or name.startswith('std::')):
        use(tr, name + ' (C locale)')
        if ln.startswith('is'): return mk(f'(if c_{ln}({vs[0].e}) {{ 1int }} else {{ 0int }})', t)
        return mk(f'c_{ln}({vs[0].e})', t)
    if name in ('strlen', '__builtin_strlen'):
        return mk(f'({tr.to_str(vs[0])}.len() as int)', t)
    if name == 'getenv':
        use(tr, 'getenv: environment constant during the run')
        return mk(f'env({tr.to_str(vs[0])})', t)
    if obj is not None:
        return method(tr, n, ln, obj, vs, t, fn)
    return None

def isa_model(tr, ln, fn, vs, t):
    ta = [x for x in fn.get('ta', [])]
    v = vs[0]
    # template args: <To..., From> ; take those that are types before From
    tos = ta[:-1] if len(ta) > 1 else ta
    if not tos: raise U()('isa without types')
    use(tr, f'llvm::{ln}: class test is a fixed predicate of the node')
    def isa(e, ty):
        f = tr.p.uninterp_fn('isa_' + parse(ty).name, [tr.p.vt(v.t)], 'bool')
        return f'{f}({e})'
    cond = '(' + ' || '.join(isa(v.e, x) for x in tos) + ')'
    if ln == 'isa':
        if tr.p.kind(v.t) == 'ptr' and tr.c.nullcheck and v.k != 'deref': tr.assert_(f'{v.e} != 0', 'isa<> on a non-null pointer')
        return mk(cond, TBOOL)
    if ln in ('isa_and_nonnull', 'isa_and_present'): return mk(f'({v.e} != 0 && {cond})', TBOOL)
    if ln == 'dyn_cast':
        if tr.p.kind(v.t) == 'ptr' and tr.c.nullcheck and v.k != 'deref': tr.assert_(f'{v.e} != 0', 'dyn_cast<> on a non-null pointer')
        return mk(f'(if {cond} {{ {v.e} }} else {{ 0int }})', t)
    if ln in ('dyn_cast_or_null', 'dyn_cast_if_present'): return mk(f'(if {v.e} != 0 && {cond} {{ {v.e} }} else {{ 0int }})', t)
    if ln == 'cast':
        if tr.c.nullcheck: tr.assert_(f'{cond}', 'cast<> to the right class')
        return mk(v.e, t)
    return mk(v.e, t)

def range_seq(tr, r, n):
    """sequence denoted by an opaque range (e.g. decl->methods())"""
    k = tr.p.kind(r.t)
    if k == 'iter' or k == 'opaque' or k == 'ptr':
        # element type from the loop variable
        et = parse(n['var']['t']).noref() if n is not None else parse('clang::Stmt *')
        f = tr.p.uninterp_fn('elements', ['int'], f'Seq<{tr.p.vt(et)}>') if tr.p.vt(et) == 'int' else tr.p.uninterp_fn('elements_' + re.sub(r'\W', '_', tr.p.vt(et)), ['int'], f'Seq<{tr.p.vt(et)}>')
        from .translate import V
        vec = parse(f'std::vector<{et.raw or et.name + "*" * len(et.quals)}>')
        return et, V(f'{f}({r.e})', vec)
    if k == 'vec': return r.t.args[0], r
    raise U()(f'range over {r.t.raw}')

def operator(tr, n, fn, obj, vs, t):
    op = n['op']
    args = ([obj] if obj is not None else []) + vs
    a = args[0]
    ka = tr.p.kind(a.t)
    rec_op = fn.get('root')
    if op in ('==', '!=') and len(args) == 2:
        b = args[1]
        kb = tr.p.kind(b.t)
        for key in (tr.p.short(fn['key']), fn['n']):
            if key in tr.p.ext: return tr.ext_model(key, obj, vs, t)
        if a.k == 'mapit' or b.k == 'mapit' : return mk(f'({a.e} {op} {b.e})', TBOOL)
        if a.cont is not None or b.cont is not None:
            return mk(f'({a.e} {op} {b.e})', TBOOL)
        if ka == 'str' or kb == 'str':
            if ka in ('str', 'cstr') and kb in ('str', 'cstr'):
                return mk(f'({tr.to_str(a)} {op} {tr.to_str(b)})', TBOOL)
        if ka == kb and ka in ('vec', 'opt', 'set', 'map'): return mk(f'({a.e} {op} {b.e})', TBOOL)
        if ka == 'rec' and kb == 'rec' and not a.t.is_ptr():
            e = eq_text(tr, a, b)
            return mk(f'({e})' if op == '==' else f'!({e})', TBOOL)
        if {ka, kb} <= {'ptr', 'opaque', 'iter'}:
            tr.p.assumed_pure.add(f'operator{op} on {a.t.name} is identity')
            return mk(f'({a.e} {op} {b.e})', TBOOL)
        if ka == 'opt':
            eb = tr.coerce(b, a.t)
            return mk(f'({a.e} {op} {eb})', TBOOL)
        return None
    if op in ('<', '>', '<=', '>=') and len(args) == 2:
        b = args[1]
        if a.k == 'ord':     # (x <=> y) OP 0
            use(tr, 'std::string operator<=>')
            x, y = tr.to_str(a.extra[0]), tr.to_str(a.extra[1])
            return mk({'<': f'str_lt({x}, {y})', '>': f'str_lt({y}, {x})', '<=': f'!str_lt({y}, {x})', '>=': f'!str_lt({x}, {y})'}[op], TBOOL)
        if a.cont is not None: return mk(f'({a.e} {op} {b.e})', TBOOL)
        if ka == 'str' or tr.p.kind(b.t) == 'str':
            x, y = tr.to_str(a), tr.to_str(b)
            use(tr, 'std::string operator<')
            e = {'<': f'str_lt({x}, {y})', '>': f'str_lt({y}, {x})', '<=': f'!str_lt({y}, {x})', '>=': f'!str_lt({x}, {y})'}[op]
            return mk(e, TBOOL)
        for key in (tr.p.short(fn['key']), fn['n']):
            if key in tr.p.ext: return tr.ext_model(key, obj, vs, t)
        return None
    if op == '<=>':
        if ka in ('str', 'cstr') and tr.p.kind(vs[-1].t) in ('str', 'cstr'): return mk('?', t, None, None, 'ord', (a, vs[-1]))
        return None
    if op == '=':
        v = vs[0]
        if ka == 'stream': return None
        if a.lv is None: raise U()(f'assignment target ({tr.file}:{tr.line})')
        node = (n['args'][0]) 
        return tr.do_assign(a, v, node)
    if op == '[]':
        i = vs[0]
        if ka == 'vec':
            tr.assert_(f'0 <= {i.e} < {a.e}.len()', 'index in range')
            return mk(f'{a.e}[{i.e}]', a.t.args[0], ('idx', a.lv, i.e) if a.lv else None)
        if ka == 'str':
            tr.assert_(f'0 <= {i.e} {"<=" if a.t.name == "std::basic_string" else "<"} {a.e}.len()', 'string index in range')
            return mk(f'cstr_at({a.e}, {i.e})' if a.t.name == 'std::basic_string' and a.lv is None and False else (f'cstr_at({a.e}, {i.e})' if a.t.name == 'std::basic_string' else f'{a.e}[{i.e}]'), parse('char'), ('idx', a.lv, i.e) if a.lv else None)
        if ka == 'map':
            key = tr.coerce(i, a.t.args[0] if a.t.name != 'llvm::StringMap' else TSTR)
            vtt = a.t.args[1] if a.t.name != 'llvm::StringMap' else a.t.args[0]
            if a.lv is None: raise U()('operator[] on immutable map')
            use(tr, 'map::operator[]')
            kt = tr.fresh()
            tr.emit(f'let ghost {kt} = {key};')
            tr.emit(f'if br(Ghost(!{tr.cur(a.lv)}.dom().contains({kt}))) {{')
            tr.ind += 1
            tr.assign(a.lv, f'{tr.cur(a.lv)}.insert({kt}, {tr.p.default(vtt)})')
            tr.ind -= 1
            tr.emit('}')
            return mk(f'{tr.cur(a.lv)}[{kt}]', vtt, ('map', a.lv, kt))
        return None
    if op == '+':
        b = vs[-1]
        if ka in ('str', 'cstr') or tr.p.kind(b.t) == 'str':
            kb = tr.p.kind(b.t)
            if ka == 'opaque' or kb == 'opaque': return None
            l = f'seq![{a.e}]' if ka == 'int' else tr.to_str(a)
            r = f'seq![{b.e}]' if kb == 'int' else tr.to_str(b)
            return mk(f'({l} + {r})', t)
        if a.cont is not None: return mk(f'({a.e} + {b.e})', a.t, None, a.cont, a.k)
        return None
    if op == '-':
        if a.cont is not None:
            b = vs[-1]
            if b.cont is not None: return mk(f'({a.e} - {b.e})', t)
            return mk(f'({a.e} - {b.e})', a.t, None, a.cont, a.k)
        return None
    if op == '+=':
        b = vs[-1]
        if ka == 'str':
            kb = tr.p.kind(b.t)
            e = f'{a.e}.push({b.e})' if kb == 'int' else f'({a.e} + {tr.to_str(b)})'
            tr.assign(a.lv, e); return mk(tr.cur(a.lv), a.t, a.lv)
        if a.cont is not None:
            tr.assign(a.lv, f'{a.e} + {b.e}'); return a
        return None
    if op in ('*', '->'):
        if op == '->' and ka in ('opt', 'iter', 'rec') or op == '*' or a.k in ('vecit', 'mapit'):
            if ka == 'ptr' and op == '*': return mk(a.e, parse(n['t']).noref(), k='deref')
            if op == '->' and ka == 'opt':
                return tr.deref(a)
            if ka in ('opaque',) : return None
            if ka == 'iter' and a.cont is None and a.k != 'mapit': return None
            return tr.deref(a)
        if op == '->' and ka == 'ptr':
            if tr.c.nullcheck: tr.assert_(f'{a.e} != 0', 'smart pointer not null')
            return mk(a.e, a.t, k='deref')
        return None
    if op in ('++', '--') and a.cont is not None and a.lv is not None:
        o = a.e
        if len(vs) > (0 if obj is not None else 1):   # postfix has a dummy int
            o = tr.fresh(); tr.emit(f'let ghost {o} = {a.e};')
        tr.assign(a.lv, f'{a.e} {op[0]} 1')
        return mk(o if o != a.e else tr.cur(a.lv), a.t, a.lv, a.cont, a.k)
    return None

def method(tr, n, m, o, vs, t, fn):
    p = tr.p
    k = p.kind(o.t)
    e = o.e
    if o.k == 'deref' and k in ('opaque', 'ptr'): return None
    if m in ('operator basic_string', 'operator basic_string_view', 'operator std::basic_string_view') or m.startswith('operator std::basic_string') or m.startswith('operator basic_string') or m.startswith('operator llvm::StringRef') or m == 'operator StringRef':
        if k in ('str', 'cstr'): return mk(tr.to_str(o), t)
        return None
    if m.startswith('operator ') and ('bool' in m):
        if k in ('opt', 'ptr', 'rec'): return mk(tr.to_bool(o), TBOOL)
        return None
    if k == 'cstr' : 
        return None
    if k == 'str': return str_method(tr, m, o, vs, t, n)
    if k == 'vec' or k == 'vec1': return vec_method(tr, m, o, vs, t, n)
    if k == 'map': return map_method(tr, m, o, vs, t, n)
    if k == 'set': return set_method(tr, m, o, vs, t, n)
    if k == 'mmap': return mmap_method(tr, m, o, vs, t, n)
    if k == 'opt':
        if m == 'has_value': return mk(f'({e} is Some)', TBOOL)
        if m == 'value': return tr.deref(o)
        if m == 'value_or': return mk(f'(if {e} is Some {{ {e}->0 }} else {{ {tr.coerce(vs[0], o.t.args[0])} }})', t)
        if m == 'reset': tr.assign(o.lv, f'None'); return mk('()', TVOID)
        if m == 'emplace': tr.assign(o.lv, f'Some({tr.coerce(vs[0], o.t.args[0])})'); return mk('()', TVOID)
        return None
    if k in ('ptr', 'rec') and m == 'get' and o.t.name in ('std::unique_ptr', 'std::shared_ptr'): return mk(o.e, o.t, o.lv)
    return None

def chararg(tr, v):
    """argument that is a char or a string"""
    if tr.p.kind(v.t) == 'int': return None
    return tr.to_str(v)

def str_method(tr, m, o, vs, t, n):
    e = o.e
    p = tr.p
    use(tr, f'string::{m}')
    if m in ('size', 'length'): return mk(f'({e}.len() as int)', t)
    if m == 'empty': return mk(f'({e}.len() == 0)', TBOOL)
    if m in ('str', 'data', 'c_str', 'operator basic_string'):
        if p.kind(t) == 'cstr': return mk(f'Some({e})', t)
        return mk(e, t)
    if m in ('begin', 'cbegin'): return it('0int', t, o)
    if m in ('end', 'cend'): return it(f'({e}.len() as int)' if False else f'{e}.len()', t, o)
    if m in ('front', 'back'):
        tr.assert_(f'{e}.len() > 0', f'{m}() on a non-empty string')
        i = '0int' if m == 'front' else f'{e}.len() - 1'
        return mk(f'{e}[{i}]', parse('char'), ('idx', o.lv, i) if o.lv else None)
    if m == 'at':
        i = vs[0].e
        tr.assert_(f'0 <= {i} < {e}.len()', 'string at() in range')
        return mk(f'{e}[{i}]', parse('char'), ('idx', o.lv, i) if o.lv else None)
    if m == 'operator[]':
        i = vs[0].e
        tr.assert_(f'0 <= {i} < {e}.len()', 'string index in range')
        return mk(f'{e}[{i}]', parse('char'), ('idx', o.lv, i) if o.lv else None)
    if m == 'substr':
        a = vs[0].e
        b = vs[1].e if len(vs) > 1 else f'{e}.len()'
        if o.t.name == 'llvm::StringRef':
            return mk(f'sref_substr({e}, {a}, {b})', t)
        tr.assert_(f'0 <= {a} <= {e}.len()', 'substr start in range')
        return mk(f'substr({e}, {a}, {b})', t)
    if m == 'split' and p.kind(vs[0].t) == 'int':
        return mk(f'({e}.take(ch_idx({e}, {vs[0].e})), rest_after({e}, {vs[0].e}))', parse('std::pair<llvm::StringRef, llvm::StringRef>'))
    if m == 'slice':
        return mk(f'sref_slice({e}, {vs[0].e}, {vs[1].e})', t)
    if m in ('drop_front', 'drop_back', 'take_front', 'take_back'):
        c = vs[0].e if vs else '1int'
        if m.startswith('drop'): tr.assert_(f'0 <= {c} <= {e}.len()', f'{m} within length')
        f = {'drop_front': f'{e}.skip({c})', 'drop_back': f'{e}.take({e}.len() - {c})', 'take_front': f'{e}.take(min_int({c}, {e}.len() as int))', 'take_back': f'{e}.skip({e}.len() - min_int({c}, {e}.len() as int))'}[m]
        return mk(f, t)
    if m in ('find', 'rfind', 'contains', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of'):
        s = chararg(tr, vs[0])
        if m == 'contains':
            return mk(f'str_contains({e}, {s})' if s is not None else f'{e}.contains({vs[0].e})', TBOOL)
        pos = vs[1].e if len(vs) > 1 else ('0int' if m.startswith('find_first') or m == 'find' else 'npos()')
        if s is None: s = f'seq![{vs[0].e}]'
        return mk(f'str_{m}({e}, {s}, {pos})', t)
    if m in ('starts_with', 'startswith', 'ends_with', 'endswith'):
        s = chararg(tr, vs[0])
        s = s if s is not None else f'seq![{vs[0].e}]'
        return mk(f'str_{"starts" if m.startswith("start") else "ends"}_with({e}, {s})', TBOOL)
    if m == 'compare':
        if len(vs) == 1: 
            return mk(f'str_cmp({e}, {tr.to_str(vs[0])})', t)
        if len(vs) == 3:
            tr.assert_(f'0 <= {vs[0].e} <= {e}.len()', 'compare() position in range')
            return mk(f'str_cmp(substr({e}, {vs[0].e}, {vs[1].e}), {tr.to_str(vs[2])})', t)
        return None
    if m == 'equals': return mk(f'({e} == {tr.to_str(vs[0])})', TBOOL)
    if m in ('equals_insensitive', 'starts_with_insensitive', 'lower', 'upper', 'trim', 'rtrim', 'ltrim', 'hash'):
        if m == 'lower': return mk(f'str_lower({e})', t)
        if m == 'upper': return mk(f'str_upper({e})', t)
        if m == 'equals_insensitive': return mk(f'(str_lower({e}) == str_lower({tr.to_str(vs[0])}))', TBOOL)
        if m in ('trim', 'rtrim', 'ltrim'): return mk(f'str_{m}({e}, {chararg(tr, vs[0]) if chararg(tr, vs[0]) is not None else "seq![" + vs[0].e + "]"})', t)
        return None
    # mutators
    if m in ('push_back',): tr.assign(o.lv, f'{e}.push({vs[0].e})'); return mk('()', TVOID)
    if m == 'pop_back':
        tr.assert_(f'{e}.len() > 0', 'pop_back on a non-empty string')
        tr.assign(o.lv, f'{e}.drop_last()'); return mk('()', TVOID)
    if m == 'append':
        if len(vs) == 1:
            tr.assign(o.lv, f'({e} + {tr.to_str(vs[0])})'); return mk(tr.cur(o.lv), o.t, o.lv)
        if len(vs) == 2 and p.kind(vs[0].t) == 'int':
            tr.assign(o.lv, f'({e} + rep_seq({vs[0].e}, {vs[1].e}))'); return mk(tr.cur(o.lv), o.t, o.lv)
        return None
    if m == 'clear': tr.assign(o.lv, 'Seq::<int>::empty()'); return mk('()', TVOID)
    if m == 'operator=' :
        v = vs[0]
        tr.assign(o.lv, f'seq![{v.e}]' if p.kind(v.t) == 'int' else tr.to_str(v)); return mk(tr.cur(o.lv), o.t, o.lv)
    if m == 'erase':
        if vs and vs[0].cont is not None:
            a = vs[0].e
            if len(vs) > 1:
                b = vs[1].e
                tr.assert_(f'0 <= {a} <= {b} <= {e}.len()', 'erase range valid')
            else:
                b = f'{a} + 1'
                tr.assert_(f'0 <= {a} < {e}.len()', 'erase position valid')
            tr.assign(o.lv, f'({e}.take({a}) + {e}.skip({b}))')
            return it(a, t, mk(tr.cur(o.lv), o.t, o.lv))
        if vs and vs[0].k == 'removed':
            tr.assign(o.lv, vs[0].extra); return mk('()', TVOID)
        a = vs[0].e if vs else '0int'
        b = vs[1].e if len(vs) > 1 else 'npos()'
        tr.assert_(f'0 <= {a} <= {e}.len()', 'erase position in range')
        tr.assign(o.lv, f'str_erase({e}, {a}, {b})'); return mk(tr.cur(o.lv), o.t, o.lv)
    if m == 'insert':
        if vs[0].cont is not None:
            a = vs[0].e
            tr.assert_(f'0 <= {a} <= {e}.len()', 'insert position valid')
            tr.assign(o.lv, f'({e}.take({a}).push({vs[1].e}) + {e}.skip({a}))'); return it(a, t, mk(tr.cur(o.lv), o.t, o.lv))
        a = vs[0].e
        tr.assert_(f'0 <= {a} <= {e}.len()', 'insert position in range')
        s = tr.to_str(vs[1]) if len(vs) == 2 else f'rep_seq({vs[1].e}, {vs[2].e})'
        tr.assign(o.lv, f'({e}.take({a}) + {s} + {e}.skip({a}))'); return mk(tr.cur(o.lv), o.t, o.lv)
    if m == 'replace' and len(vs) == 3 and vs[0].cont is None:
        a, b = vs[0].e, vs[1].e
        tr.assert_(f'0 <= {a} <= {e}.len()', 'replace position in range')
        tr.assign(o.lv, f'({e}.take({a}) + {tr.to_str(vs[2])} + {e}.skip(min_int({a} + {b}, {e}.len() as int)))'); return mk(tr.cur(o.lv), o.t, o.lv)
    if m == 'consume_front':
        s = tr.to_str(vs[0])
        tn = tr.fresh()
        tr.emit(f'let ghost {tn} = str_starts_with({e}, {s});')
        tr.assign(o.lv, f'(if {tn} {{ {e}.skip({s}.len() as int) }} else {{ {e} }})')
        return mk(tn, TBOOL)
    if m == 'reserve': return mk('()', TVOID)
    if m == 'resize':
        tr.assign(o.lv, f'seq_resize({e}, {vs[0].e}, {vs[1].e if len(vs) > 1 else "0int"})'); return mk('()', TVOID)
    if m == 'getAsInteger': return None
    return None

def vec_method(tr, m, o, vs, t, n):
    e = o.e
    p = tr.p
    et = o.t.args[0] if o.t.arr is None else T(o.t.name, o.t.args, o.t.const, o.t.quals)
    use(tr, f'vector::{m}')
    if m == 'size': return mk(f'({e}.len() as int)', t)
    if m == 'empty': return mk(f'({e}.len() == 0)', TBOOL)
    if m in ('begin', 'cbegin'): return it('0int', t, o)
    if m in ('end', 'cend'): return it(f'{e}.len()', t, o)
    if o.t.name == 'std::stack':
        m = {'push': 'push_back', 'emplace': 'emplace_back', 'top': 'back', 'pop': 'pop_back'}.get(m, m)
    if m in ('front', 'back'):
        tr.assert_(f'{e}.len() > 0', f'{m}() on a non-empty container')
        i = '0int' if m == 'front' else f'{e}.len() - 1'
        return mk(f'{e}[{i}]', et, ('idx', o.lv, i) if o.lv else None)
    if m in ('at', 'operator[]'):
        i = vs[0].e
        tr.assert_(f'0 <= {i} < {e}.len()', 'index in range')
        return mk(f'{e}[{i}]', et, ('idx', o.lv, i) if o.lv else None)
    if m in ('push_back', 'emplace_back'):
        if len(vs) == 1: x = tr.coerce(vs[0], et)
        elif not vs: x = p.default(et)
        elif p.kind(et) == 'pair': x = '(' + ', '.join(tr.coerce(v, a) for v, a in zip(vs, et.args)) + ')'
        elif p.kind(et) == 'rec':
            rec = p.rec_of(et)
            cand = [f for f in p.unit.byname.get(f'{rec}::{rec.split("::")[-1]}', []) if len(f['params']) == len(vs)]
            if cand: raise U()('emplace_back with constructor')
            used = p.recfields.setdefault(rec, {})
            vals = {}
            for f, v in zip(p.unit.records[rec]['fields'], vs):
                if f['n'] in used: vals[f['n']] = tr.coerce(v, parse(f['t']))
            x = tr.rec_build(et, vals).e
        elif p.kind(et) == 'str' and len(vs) == 2 and vs[0].cont is not None and vs[0].k == 'ptrinto':
            x = f'substr({vs[0].cont.e}, {vs[0].e}, {vs[1].e})'
        else: raise U()(f'emplace_back of {et.raw}')
        tr.assign(o.lv, f'{tr.cur(o.lv)}.push({x})')
        return mk(f'{tr.cur(o.lv)}[{tr.cur(o.lv)}.len() - 1]', et, ('idx', o.lv, f'{tr.cur(o.lv)}.len() - 1'))
    if m == 'append' and len(vs) == 2 and p.kind(vs[0].t) == 'int' and vs[0].cont is None:
        tr.assign(o.lv, f'{tr.cur(o.lv)}.push({tr.coerce(vs[1], et)})' if vs[0].e == '1int' else f'({tr.cur(o.lv)} + rep_seq({vs[0].e}, {tr.coerce(vs[1], et)}))'); return mk('()', TVOID)
    if m == 'pop_back':
        tr.assert_(f'{e}.len() > 0', 'pop_back on a non-empty container')
        tr.assign(o.lv, f'{e}.drop_last()'); return mk('()', TVOID)
    if m == 'clear': tr.assign(o.lv, f'Seq::<{p.vt(et)}>::empty()'); return mk('()', TVOID)
    if m == 'reserve': return mk('()', TVOID)
    if m == 'swap':
        a, b = tr.bind(o), tr.bind(vs[0])
        tr.assign(o.lv, b.e); tr.assign(vs[0].lv, a.e); return mk('()', TVOID)
    if m == 'erase':
        if vs[0].k == 'removed':
            if vs[1].e != f'{e}.len()': raise U()('erase(remove_if) end')
            tr.assign(o.lv, vs[0].extra); return mk('()', TVOID)
        a = vs[0].e
        if len(vs) > 1:
            b = vs[1].e
            tr.assert_(f'0 <= {a} <= {b} <= {e}.len()', 'erase range valid')
        else:
            b = f'{a} + 1'
            tr.assert_(f'0 <= {a} < {e}.len()', 'erase position valid')
        tr.assign(o.lv, f'({e}.take({a}) + {e}.skip({b}))')
        return it(a, t, mk(tr.cur(o.lv), o.t, o.lv))
    if m == 'insert':
        if len(vs) == 2 and vs[0].cont is not None:
            a = vs[0].e
            tr.assert_(f'0 <= {a} <= {e}.len()', 'insert position valid')
            x = tr.coerce(vs[1], et)
            tr.assign(o.lv, f'{e}.insert({a}, {x})')
            return it(a, t, mk(tr.cur(o.lv), o.t, o.lv))
        if len(vs) == 3 and vs[0].cont is not None and vs[1].cont is not None:
            seq, off, c = subseq(tr, vs[1], vs[2])
            a = vs[0].e
            tr.assign(o.lv, f'({e}.take({a}) + {seq} + {e}.skip({a}))')
            return it(a, t, mk(tr.cur(o.lv), o.t, o.lv))
        return None
    if m == 'resize':
        tr.assign(o.lv, f'seq_resize({e}, {vs[0].e}, {tr.coerce(vs[1], et) if len(vs) > 1 else p.default(et)})'); return mk('()', TVOID)
    if m == 'operator=':
        tr.assign(o.lv, vs[0].e); return mk(tr.cur(o.lv), o.t, o.lv)
    return None

def kv(o):
    if o.t.name == 'llvm::StringMap': return TSTR, o.t.args[0]
    return o.t.args[0], o.t.args[1]

def mapit(tr, e, t, o, kt):
    return mk(e, t, None, o, 'mapit', kt)

def map_method(tr, m, o, vs, t, n):
    e = o.e
    p = tr.p
    kt, vt_ = kv(o)
    use(tr, f'map::{m}')
    if m == 'empty': return mk(f'({e}.dom() =~= Set::empty())', TBOOL)
    if m in ('end', 'cend'): return mapit(tr, f'None::<{p.vt(kt)}>', t, o, kt)
    if m == 'find':
        k = tr.coerce(vs[0], kt)
        return mapit(tr, f'(if {e}.dom().contains({k}) {{ Some({k}) }} else {{ None::<{p.vt(kt)}> }})', t, o, kt)
    if m == 'contains': return mk(f'{e}.dom().contains({tr.coerce(vs[0], kt)})', TBOOL)
    if m == 'count': return mk(f'(if {e}.dom().contains({tr.coerce(vs[0], kt)}) {{ 1int }} else {{ 0int }})', t)
    if m == 'at':
        k = tr.coerce(vs[0], kt)
        tr.assert_(f'{e}.dom().contains({k})', 'map::at on an existing key')
        return mk(f'{e}[{k}]', vt_, ('map', o.lv, k) if o.lv else None)
    if m == 'clear': tr.assign(o.lv, p.default(o.t)); return mk('()', TVOID)
    if m in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
        if len(vs) == 2: k, v = tr.coerce(vs[0], kt), tr.coerce(vs[1], vt_)
        else:
            x = tr.bind(vs[0]); k, v = f'{x.e}.0', f'{x.e}.1'
        if m == 'insert_or_assign':
            tr.assign(o.lv, f'{e}.insert({k}, {v})')
            return mk('()', TVOID)
        had = tr.fresh(); tr.emit(f'let ghost {had} = {e}.dom().contains({k});')
        kk = tr.fresh(); tr.emit(f'let ghost {kk} = {k};')
        tr.assign(o.lv, f'(if {e}.dom().contains({k}) {{ {e} }} else {{ {e}.insert({k}, {v}) }})')
        return mk(f'({kk}, !{had})', t, None, None, 'insres', (o, kt))
    if m == 'erase':
        if vs[0].k == 'mapit':
            tr.assert_(f'{vs[0].e} is Some', 'erase of a valid iterator')
            tr.assign(o.lv, f'{e}.remove({vs[0].e}->0)'); return mk('()', TVOID)
        k = tr.coerce(vs[0], kt)
        tr.assign(o.lv, f'{e}.remove({k})'); return mk('0int', t)
    if m == 'operator[]':
        return None
    if m == 'lookup':
        k = tr.coerce(vs[0], kt)
        return mk(f'(if {e}.dom().contains({k}) {{ {e}[{k}] }} else {{ {p.default(vt_)} }})', t)
    if m == 'reserve': return mk('()', TVOID)
    if m == 'size': return mk(f'({e}.dom().len() as int)', t)
    return None

def mmap_method(tr, m, o, vs, t, n):
    e, p = o.e, tr.p
    kt, vt_ = o.t.args[0], o.t.args[1]
    use(tr, f'multimap::{m}')
    et = parse(f'std::pair<{kt.raw}, {vt_.raw}>')
    if m in ('insert', 'emplace'):
        if len(vs) == 2 and vs[0].cont is None: x = f'({tr.coerce(vs[0], kt)}, {tr.coerce(vs[1], vt_)})'
        elif len(vs) == 1: x = vs[0].e
        else: return None
        tr.assign(o.lv, f'{e}.push({x})'); return mk('()', TVOID)
    if m == 'equal_range':
        k = tr.coerce(vs[0], kt)
        x = tr.fresh('x'); s = tr.name('eqr')
        tr.emit(f'let ghost {s} = {e}.filter(|{x}: ({p.vt(kt)}, {p.vt(vt_)})| {x}.0 == {k});')
        c = mk(s, parse(f'std::vector<std::pair<{kt.raw}, {vt_.raw}>>'))
        return mk('?', t, None, None, 'itpair', [it('0int', t.args[0], c), it(f'({s}.len() as int)', t.args[0], c)])
    if m == 'empty': return mk(f'({e}.len() == 0)', TBOOL)
    if m == 'clear': tr.assign(o.lv, p.default(o.t)); return mk('()', TVOID)
    return None

def set_method(tr, m, o, vs, t, n):
    e = o.e
    p = tr.p
    kt = o.t.args[0]
    use(tr, f'set::{m}')
    if m == 'empty': return mk(f'({e} =~= Set::empty())', TBOOL)
    if m in ('end', 'cend'): return mk(f'None::<{p.vt(kt)}>', t, None, mk(e, o.t, o.lv), 'mapit', kt)
    if m == 'find':
        k = tr.coerce(vs[0], kt)
        return mk(f'(if {e}.contains({k}) {{ Some({k}) }} else {{ None::<{p.vt(kt)}> }})', t, None, o, 'mapit', kt)
    if m == 'contains': return mk(f'{e}.contains({tr.coerce(vs[0], kt)})', TBOOL)
    if m == 'count': return mk(f'(if {e}.contains({tr.coerce(vs[0], kt)}) {{ 1int }} else {{ 0int }})', t)
    if m == 'insert' and len(vs) == 1:
        k = tr.coerce(vs[0], kt)
        had = tr.fresh(); tr.emit(f'let ghost {had} = {e}.contains({k});')
        tr.assign(o.lv, f'{e}.insert({k})')
        return mk(f'(0int, !{had})', parse(f'std::pair<int, bool>'))
    if m == 'insert' and len(vs) == 2 and vs[0].cont is not None:
        s, off, c = subseq(tr, vs[0], vs[1])
        tr.assign(o.lv, f'{e}.union({s}.to_set())'); return mk('()', TVOID)
    if m == 'emplace' and len(vs) == 1:
        k = tr.coerce(vs[0], kt)
        tr.assign(o.lv, f'{e}.insert({k})'); return mk('()', TVOID)
    if m == 'erase':
        if vs[0].k == 'mapit':
            tr.assert_(f'{vs[0].e} is Some', 'erase of a valid iterator')
            tr.assign(o.lv, f'{e}.remove({vs[0].e}->0)'); return mk('()', TVOID)
        k = tr.coerce(vs[0], kt)
        tr.assign(o.lv, f'{e}.remove({k})'); return mk('0int', t)
    if m == 'clear': tr.assign(o.lv, p.default(o.t)); return mk('()', TVOID)
    if m == 'size': return mk(f'({e}.len() as int)', t)
    return None

def construct(tr, n, t, k, args):
    p = tr.p
    if t.name == 'std::__cmp_cat::__unspec': return mk('0int', TINT)
    if k == 'map:IStream':
        use(tr, 'std::istringstream(string)')
        return mk(f'IStream {{ rest: {tr.to_str(tr.ex(args[0]))} }}', t)
    if k == 'str':
        if not args: return mk('Seq::<int>::empty()', t)
        vs = tr.exprs(args)
        if len(vs) == 1: return mk(tr.to_str(vs[0]), t)
        if len(vs) == 2 and vs[0].cont is not None and vs[1].cont is not None:
            s, off, c = subseq(tr, vs[0], vs[1]); return mk(s, t)
        if len(vs) == 2 and p.kind(vs[0].t) == 'int': 
            use(tr, 'string(n, c)')
            return mk(f'rep_seq({vs[0].e}, {vs[1].e})', t)
        if len(vs) == 2 and vs[0].k == 'cptr': return mk(f'{vs[0].extra}({vs[0].e}, {vs[1].e})', t)
        if len(vs) == 2 and p.kind(vs[0].t) == 'cstr':
            s = tr.to_str(vs[0])
            tr.assert_(f'0 <= {vs[1].e} <= {s}.len()', 'string(ptr, n) within the buffer')
            return mk(f'{s}.take({vs[1].e})', t)
        return None
    if k == 'vec':
        if not args: return mk(p.default(t), t)
        vs = tr.exprs(args)
        if len(vs) == 1:
            if p.kind(vs[0].t) in ('vec', 'vec1') or vs[0].t.arr is not None: return mk(vs[0].e, t)
            if p.kind(vs[0].t) == 'int': return mk(f'rep_seq({vs[0].e}, {p.default(t.args[0])})', t)
            if t.name == 'llvm::ArrayRef': return mk(f'seq![{tr.coerce(vs[0], t.args[0])}]', t)
        if len(vs) == 2 and vs[0].cont is not None:
            s, off, c = subseq(tr, vs[0], vs[1]); return mk(s, t)
        if len(vs) == 2 and p.kind(vs[0].t) == 'int': return mk(f'rep_seq({vs[0].e}, {tr.coerce(vs[1], t.args[0])})', t)
        return None
    if k in ('map', 'set', 'mmap'):
        if not args: return mk(p.default(t), t)
        vs = tr.exprs(args)
        if len(vs) >= 1 and k == 'set' and p.kind(vs[0].t) == 'vec': return mk(f'{vs[0].e}.to_set()', t)
        return None
    if k == 'opt':
        if not args: return mk(p.default(t), t)
        vs = tr.exprs(args)
        if p.kind(vs[0].t) == 'opt': return mk(vs[0].e, t)
        if vs[0].t.name == 'std::nullopt_t': return mk(p.default(t), t)
        return mk(f'Some({tr.coerce(vs[0], t.args[0])})', t)
    if k == 'pair':
        vs = tr.exprs(args)
        if not vs: return mk(p.default(t), t)
        if len(vs) == 1 and p.kind(vs[0].t) == 'pair': return mk(vs[0].e, t)
        if len(vs) == len(t.args):
            if any(v.cont is not None for v in vs): return mk('(' + ', '.join(v.e for v in vs) + ')', t, None, None, 'itpair', vs)
            return mk('(' + ', '.join(tr.coerce(v, a) for v, a in zip(vs, t.args)) + ')', t)
    if k == 'iter' and len(args) == 1:
        return tr.ex(args[0])
    if k == 'ptr':
        vs = tr.exprs(args)
        if not vs: return mk('0int', t)
        if len(vs) == 1 and p.kind(vs[0].t) == 'ptr': return mk(vs[0].e, t)
    if t.name == 'llvm::Twine':
        vs = tr.exprs(args)
        if len(vs) == 1 and p.kind(vs[0].t) in ('str', 'cstr'): return mk(tr.to_str(vs[0]), TSTR)
    return None

def decl_hook(tr, d, t):
    return False
