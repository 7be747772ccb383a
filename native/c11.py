"""C11: generated functions and loops whose parameters and variables have types of known size and copy cost, and bodies that change them or not."""
import os, shutil, concurrent.futures as cf
from native import run as R
from native.c07 import FIX, unesc
import build
CHECKS = ['function-args-by-ref', 'function-args-by-value', 'range-loop-reference']
HEAD = r'''#pragma once
namespace std { template<class T> struct rr { using type = T; }; template<class T> struct rr<T&> { using type = T; }; template<class T> constexpr typename rr<T>::type &&move(T &&t) { return static_cast<typename rr<T>::type &&>(t); }
template<class T> struct shared_ptr { T *t; shared_ptr(); shared_ptr(const shared_ptr &); ~shared_ptr(); }; template<class T> struct unique { T *t; unique(); unique(unique &&); ~unique(); }; }
template<class T> struct QSharedPointer { T *t; QSharedPointer(); QSharedPointer(const QSharedPointer &); ~QSharedPointer(); };
struct QColor { QColor(); QColor(const QColor &); }; struct QCharRef { int i; }; namespace other { struct QColor { QColor(); QColor(const QColor &); }; struct QCharRef { int i; }; }
struct Nt { Nt(); Nt(const Nt &); int n; }; struct Dt { ~Dt(); int n; }; struct Pl { int n; }; struct Nc { Nc(); Nc(const Nc &) = delete; int n; }; struct Mv { Mv(); Mv(Mv &&); int n; };
template<class T> void byC(const T &); template<class T> void byCP(const T *); template<class T> void byRef(T &); template<class T> void byP(T *); template<class T> void byR(T &&); void byI(int &); void byCI(const int &); void byCIP(const int *); void va(...);
template<class T> void two(int, T &); template<class T> void copyTo(const T &, T &); template<class T> void cc(const T &, const T &); template<class T> void twoC(T &, const T &); template<class T> void twoM(const T &, T *, int = 0); template<class T> struct Takes2 { Takes2(int, const T &, T &); };
template<class T> struct TakesRef { TakesRef(T &); }; template<class T> struct TakesC { TakesC(const T &); }; template<class T> struct TakesP { TakesP(T *); };
template<class T> struct Cont { Cont(); Cont(const Cont &); T *begin() const; T *end() const; };
'''
# bodies: (text with $ for the variable and T for its type, changes it, needs a copy)
BODY = [('', 0), ('(void)$.b;', 0), ('byC($);', 0), ('byCP(&$);', 0), ('$.c();', 0), ('int x; x = $.b; ++x; byI(x);', 0), ('byCI($.b);', 0), ('byCIP(&$.in.z);', 0), ('if ($.b > 1 && $.a[0] == 2) { byC($); }', 0), ('TakesC<T> tc($);', 0),
        ('T *o = nullptr; o->mut(); o->b = $.b; byRef(*o); *o += $.b;', 0), ('struct L { int v; } l; l.v = $.in.z; l.v++;', 0), ('int x = $.b; while (x < $.in.z) x += $.a[0];', 0), ('const T &q = $; q.c(); const T *z = &$; z->c();', 0), ('int n = -$.b; bool m = !$.b; byI(n);', 0), ('auto l = [&] { return $.b; }; l();', 0), ('{ T *$_ = nullptr; $_->mut(); }', 0), ('int w[2] = {}; w[$.b] = 1; w[0] += $.a[0];', 0), ('(void)sizeof($); va($.b);', 0),
        ('T *o = nullptr; twoC(*o, $); twoM($, o);', 0), ('T *o = nullptr; Takes2<T> t2(1, $, *o);', 0), ('two(7, $);', 1), ('T *o = nullptr; twoM(*o, &$, 2);', 1), ('T *o = nullptr; twoC($, *o);', 1), ('T *o = nullptr; Takes2<T> t2(1, *o, $);', 1), ('two($.b, $);', 1), ('twoM($, &$);', 1), ('twoC($, $);', 1), ('Takes2<T> t2(1, $, $);', 1), ('copyTo($, $);', 1), ('T *o = nullptr; copyTo($, *o); cc($, $);', 0), ('T *o = nullptr; $.c(); o->mut(); $.mut();', 1), ('T *o = nullptr; copyTo(*o, $); copyTo($, *o);', 1),
        ('$.mut();', 1), ('$.b = 1;', 1), ('$.b += 2;', 1), ('$.b++;', 1), ('--$.b;', 1), ('$.in.z = 1;', 1), ('$.in.z--;', 1), ('$.a[0] = 1;', 1), ('++$.a[0];', 1), ('$ += 1;', 1), ('++$;', 1), ('$[0] = 1;', 1), ('byRef($);', 1), ('byP(&$);', 1), ('byR(std::move($));', 1), ('byI($.b);', 1), ('($).mut();', 1), ('TakesRef<T> tr($);', 1), ('TakesP<T> tp(&$);', 1), ('auto l = [&] { $.mut(); }; l();', 1), ('auto l = [&] { $.in.z = 2; }; l();', 1), ('if ($.b) { for (int i = 0; i < 2; ++i) { if (i) { $.mut(); } } }', 1), ('byC($); byRef($);', 1), ('switch ($.b) { case 1: $.b = 0; break; default: break; }', 1), ('T *o = nullptr; o->b = ($.b = 3);', 1), ('do { $ += 1; } while (0);', 1), ('byCI(($.b = 2));', 1), ('$.operator+=(3);', 1), ('($.b) = 4;', 1), ('int x = ++$.b;', 1), ('va($.b = 1);', 1), ('$.b <<= 1;', 1)]
class Ty:
    def __init__(s, name, size, cost, **k):
        s.name, s.size, s.cost = name, size, cost; s.exempt = s.plain = s.incomplete = s.scalar = s.nocopy = False; s.decl = None; s.__dict__.update(k)
SCALARS = [Ty('int', 4, 0, scalar=True), Ty('double', 8, 0, scalar=True), Ty('Pl *', 8, 0, scalar=True, ptr=1), Ty('const char *', 8, 0, scalar=True, ptr=1), Ty('E', 4, 0, scalar=True), Ty('long double', 16, 0, scalar=True)]
class Par:
    def __init__(s, **k): s.__dict__.update(k)
class Gen:
    def __init__(s, r): s.r = r; s.n = 0; s.exp = set(); s.opt = r.random() < .2
    def id(s, p): s.n += 1; return f'{p}{s.n}'
    def types(s):
        r = s.r; s.T = []; L = ['enum E { e1 };']
        for _ in range(r.choice([3, 5, 8])):
            nm = s.id('T'); n = r.choice([1, 1, 2, 2, 2, 3, 3, 9]); cost = nocopy = 0; pre = post = ''; base = ''; mem = ''; extra = 0; attr = ''
            k = r.random(); size = None; how = ''
            if k < .35: pass
            elif k < .42: mem = r.choice([f'{nm}(const {nm} &) = default; {nm}();', f'~{nm}() = default;', f'{nm}(); {nm}(int);', f'{nm} &operator=(const {nm} &);', f'template<class Q> {nm}(const Q &); {nm}();', f'static Nt s_;', f'{nm}(); {nm}(const {nm} &) = default; {nm}({nm} &&) = default;']); mem += '' 
            elif k < .56: cost = 1; mem = r.choice([f'{nm}(const {nm} &); {nm}();', f'{nm}({nm} &); {nm}();', f'~{nm}();', f'virtual void vv();', f'virtual ~{nm}();', f'{nm}(const {nm} &, int = 0); {nm}();']); size = -1 if 'virtual' in mem else None
            elif k < .64: cost = nocopy = 1; mem = r.choice([f'{nm}(const {nm} &) = delete; {nm}();', f'{nm}({nm} &&); {nm}();', f'{nm}({nm} &&) = default; {nm}();'])
            elif k < .8: m = r.choice(['Nt', 'Dt', 'Pl', 'Pl', 'Nc', 'Mv', 'std::unique<int>']); mem = f'{m} m_;'; cost = m != 'Pl'; nocopy = m in ('Nc', 'Mv', 'std::unique<int>'); extra = 4; size = -1 if 'unique' in m else None
            elif k < .9: m = r.choice(['Nt', 'Dt', 'Pl', 'Pl', 'Nc', 'Mv']); base = f' : {m}'; cost = m != 'Pl'; nocopy = m in ('Nc', 'Mv'); extra = 4
            else: attr = '__attribute__((packed)) '; mem = 'char k_[5];'; n = 1; extra = 5
            size = (8 + 4 * n + extra) if size is None else None
            if size is None: n = 9; size = None
            tmpl = r.random() < .12 and nm + '(' not in mem
            decl = f'struct {attr}{nm}{base} {{ {mem} int b; struct In {{ int z; }} in; int a[{n}]; void mut(); void c() const; {nm} &operator+=(int); {nm} &operator++(); int &operator[](int); }};'
            if tmpl: decl = 'template<class P> ' + decl; L.append(decl); L.append(f'static_assert(sizeof({nm}<int>) > 0);'); L.append(f'using A{nm} = {nm}<int>;'); name = r.choice([f'{nm}<int>', f'A{nm}'])
            elif r.random() < .1: decl = f'namespace n{nm} {{ {decl} }}'; name = f'n{nm}::{nm}'; L.append(decl)
            elif r.random() < .1: L.append(decl); L.append(f'using A{nm} = {nm};'); name = f'A{nm}'
            else: name = nm; L.append(decl)
            if size is None and r.random() < 2: pass
            t = Ty(name, size, bool(cost), plain=not (mem and cost) and not nocopy, nocopy=bool(nocopy)); t.big = n == 9 or (size is not None and size > 16); t.ct, t.cr = f'C{nm}', f'R{nm}'
            L.append(f'using {t.ct} = const {name}; using {t.cr} = const {name} &;'); s.T.append(t)
        for t in SCALARS:
            t.big = False; t.ct = t.cr = None
        ex = [Ty('std::shared_ptr<int>', 8, True, exempt=True), Ty('QSharedPointer<Pl>', 8, True, exempt=True), Ty('QColor', 1, True, exempt=True), Ty('QCharRef', 4, False, exempt=True), Ty('other::QColor', 1, True), Ty('other::QCharRef', 4, False)]
        for t in ex: t.big = False; t.ct = t.cr = None
        s.EX = ex; s.L = L
    def ty(s):
        k = s.r.random()
        return s.r.choice(SCALARS) if k < .15 else s.r.choice(s.EX) if k < .25 else s.r.choice(s.T)
    def forms(s, t, n):
        """(text, fixed text, how)"""
        T = t.name; P = getattr(t, 'ptr', 0); sp = ' ' if n else ''
        out = [(f'{T}{sp}{n}', f'const {T} &{n}', 'val')] * 3 + [(f'{T} &{n}', None, 'none'), (f'{T} &&{n}', None, 'none')]
        if P: out += [(f'{T}const &{n}', f'{T}{n}', 'cref'), (f'{T}const{sp}{n}', None, 'cval')]
        else:
            out += [(f'const {T}{sp}{n}', f'const {T} &{n}', 'cval'), (f'{T} const{sp}{n}', f'{T} const &{n}', 'cval'), (f'const {T} &&{n}', None, 'none'), (f'{T} *{n}', None, 'none'), (f'const {T} *{n}', None, 'none')]
            out += [(f'const {T} &{n}', f'{T} {n}', 'cref')] * 3 + [(f'{T} const &{n}', f'{T} {n}', 'cref')]
            out += [(f'const {T} (&{n})[2]', None, 'none'), (f'{T} (*{n})(int)', None, 'none'), (f'{T} *const &{n}', f'{T} *{n}', 'pref'), (f'void (*const &{n})({T})', f'void (*{n})({T})', 'pref')]
        if t.ct: out += [(f'{t.ct}{sp}{n}', f'{t.ct} &{n}', 'cval'), (f'{t.cr}{sp}{n}', f'{T} {n}', 'cref'), (f'{t.ct} &{n}', f'{t.ct} {n}', 'cref')]
        return s.r.choice(out)
    def wrong(s, t, how, changed, op=''):
        if how == 'pref': return 'val'
        if t.exempt: return None
        if how == 'cref': return 'val' if not t.big and not t.cost else None
        if how == 'cval' or (how == 'val' and not changed):
            return 'nt' if t.cost else 'big' if t.big else None
        return None
    def body(s, t, n, how):
        r = s.r
        if not n or t.scalar or t.exempt or 'other::' in t.name or how not in ('val', 'cval', 'cref'): return '', 0
        b, c = r.choice([x for x in BODY if how == 'val' or not x[1]])
        if r.random() < .25: b2, c2 = r.choice([x for x in BODY if how == 'val' or not x[1]]); b, c = '{ %s } { %s }' % (b, b2), c | c2
        if r.random() < .2: b = r.choice(['if (true) { %s }', 'for (;;) { %s }', '{ { %s } }', 'try { %s } catch (...) { }', 'auto l0 = [&] { %s }; l0();']) % b
        return '{ %s }' % b.replace('$', n).replace('T ', t.name + ' ').replace('<T>', f'<{t.name} >'), c
    def params(s, k, kind):
        """parameters: text in the definition, expected warnings"""
        out = []
        for i in range(k):
            t = s.ty(); n = '' if s.r.random() < .1 else f'p{i}'
            text, fixed, how = s.forms(t, n)
            b, c = s.body(t, n, how)
            out.append(Par(t=t, n=n, text=text, fixed=fixed, how=how, body=b, changed=c, deflt=''))
        return out
    def file(s):
        r = s.r; s.types(); s.lines = [[x] for x in s.L]
        for _ in range(r.choice([8, 16, 30])): s.fn()
        pos = []; out = []; fixed = []
        for ln, l in enumerate(s.lines, 1):
            t = f = ''
            for x in l:
                if isinstance(x, str): t += x; f += x; continue
                p, own = x
                if own and p.w: s.exp.add((ln, len(t) + 1, p.w, p.size if p.w == 'big' and p.size else ''))
                t += p.text; f += p.fixed if p.fix else p.text
            out.append(t); fixed.append(f)
        return '#include "c_.h"\n' + '\n'.join(out) + '\n', '#include "c_.h"\n' + '\n'.join(fixed) + '\n', {(l + 1, c, w, z) for l, c, w, z in s.exp}
    def redecl(s, ps, default=False):
        """another declaration of the same parameters"""
        out = []
        for p in ps:
            n = s.r.choice([p.n, '', 'q' + p.n]); T = p.t.name
            if p.how == 'val': text, fixed = s.r.choice([(f'{T} {n}', f'const {T} &{n}')] + ([(f'const {T} {n}', f'const {T} &{n}')] if not getattr(p.t, 'ptr', 0) else []))
            else: text, fixed = (p.text, p.fixed) if not p.n else (p.text.replace(p.n, n), p.fixed.replace(p.n, n) if p.fixed else None)
            out.append(Par(t=p.t, text=text, fixed=fixed, w=p.w, fix=p.fix, size=p.size))
        return out
    def plist(s, ps, own):
        out = []
        for i, p in enumerate(ps): out += ([', '] if i else []) + [(p, own)] + ([p.deflt] if getattr(p, 'deflt', '') else [])
        return out
    def fn(s):
        r = s.r; f = s.id('f')
        kind = r.choice(['free', 'free', 'free', 'static', 'method', 'method', 'ctor', 'virtual', 'override', 'shl', 'assign', 'eq', 'plus', 'lambda', 'lambda', 'deleted', 'decl', 'template', 'redecl', 'redecl', 'outofline', 'loop', 'loop', 'loop', 'friend', 'copy', 'conv', 'ns', 'tmethod'])
        if kind == 'loop': return s.loop(f)
        k = {'shl': 1, 'assign': 1, 'eq': 1, 'plus': 1, 'conv': 1}.get(kind) or r.choice([1, 1, 2, 2, 3, 4])
        ps = s.params(k, kind)
        if kind in ('shl', 'assign', 'eq', 'plus'):      # operators of a class with a parameter
            pass
        inits = ''; mems = ''
        if kind == 'ctor':
            its = []
            for p in ps:
                x = r.random()
                if not p.n or p.t.incomplete or p.how not in ('val', 'cval', 'cref'): continue
                if x < .3 and p.how == 'cref': mems += f' {p.t.name} const &m{p.n};'; its.append((f'm{p.n}({p.n})', 'bind'))
                elif x < .45 and p.how in ('val',) and not p.t.scalar and p.t.plain and not p.t.exempt: mems += f' {p.t.name} m{p.n};'; its.append((f'm{p.n}(std::move({p.n}))', 'move'))
                elif x < .6 and not p.t.scalar and p.t.plain and not p.t.nocopy and not p.t.cost: mems += f' {p.t.name} m{p.n};'; its.append((f'm{p.n}({p.n})', ''))
                elif x < .7 and not p.t.scalar and not p.t.exempt and not p.t.name.startswith('other') : mems += f' int m{p.n};'; its.append((f'm{p.n}({p.n}.b)', ''))
                else: continue
                p.init = its[-1][1]
                if r.random() < .3 and p.how == 'cref':
                    x = f' bool n{p.n};'; mems = r.choice([x + mems, mems + x]); its.insert(r.choice([len(its) - 1, len(its)]), (f'n{p.n}(&{p.n} != nullptr)', ''))
            inits = ' : ' + ', '.join(x for x, _ in its) if its else ''
        val = kind not in ('shl', 'assign', 'eq', 'copy') and (kind != 'override' or s.opt); ref = kind not in ('shl',)
        for p in ps:
            p.w = s.wrong(p.t, p.how, p.changed)
            if getattr(p, 'init', '') == 'move': p.w = None
            if getattr(p, 'init', '') == 'bind' and p.w == 'val': p.w = None
            if p.w == 'val' and not val or p.w in ('nt', 'big') and not ref or kind in ('deleted', 'decl'): p.w = None
            p.fix = bool(p.w) and not (p.w == 'val' and kind in ('virtual', 'override') and not s.opt); p.size = p.t.size
        body = ' '.join(['{'] + [p.body for p in ps if p.body] + ['}'])
        if kind in ('free', 'static', 'method', 'ns') and r.random() < .15:      # defaults from the end
            for p in reversed(ps):
                if p.how not in ('val', 'cval', 'cref') or p.t.nocopy: break
                p.deflt = r.choice([' = {}', ' = ' + (p.t.name if ' ' not in p.t.name else 'E') + '()']) if not p.t.scalar else ' = {}'
                if r.random() < .5: break
        pl = lambda own=True: s.plist(ps, own)
        A = s.lines.append
        if kind == 'free': A([f'{r.choice(["void", "int", "static void", "inline void", "auto"])} {f}('.replace('int ', 'void ')] + pl() + [f') {body}'])
        elif kind == 'static': A([f'struct C{f} {{ static void {f}('] + pl() + [f') {body} }};'])
        elif kind == 'ns': A([f'namespace N{f} {{ namespace {{ void {f}('] + pl() + [f') {body} }} }}'])
        elif kind == 'friend': A([f'struct C{f} {{ friend void {f}('] + pl() + [f') {body} }};'])
        elif kind == 'method': A([f'struct C{f} {{ void {f}('] + pl() + [f') {r.choice(["", "const ", "noexcept "])}{body} }};'])
        elif kind == 'conv': A([f'struct C{f} {{ void operator()('] + pl() + [f') {body} }};'])
        elif kind == 'copy': A([f'struct C{f} {{ C{f}(const C{f} &o) : b(o.b) {{}} C{f}(C{f} &&) = default; C{f} &operator=(const C{f} &) = default; bool operator==(const C{f} &o) const {{ return b == o.b; }} int b; }};']); return
        elif kind == 'ctor': A([f'struct C{f} {{ C{f}('] + pl() + [f', int, int, int){inits} {body}{mems} }};'])
        elif kind == 'virtual': A([f'struct C{f} {{ virtual void {f}('] + pl() + [f') {body} }};'])
        elif kind == 'override':
            A([f'struct B{f} {{ virtual void {f}('] + s.plist(s.redecl_same(ps), False) + [') = 0; };'])
            A([f'struct C{f} : B{f} {{ {r.choice(["", "virtual "])}void {f}('] + pl() + [f') {body} }};'])
        elif kind == 'shl': A([f'struct C{f} {{ void operator<<('] + pl() + [f') {body} }};'])
        elif kind == 'assign': A([f'struct C{f} {{ void operator=('] + pl() + [f') {body} }};'])
        elif kind == 'eq': A([f'struct C{f} {{ bool operator==('] + pl() + [f') const {body[:-1]} return true; }} }};'])
        elif kind == 'plus': A([f'struct C{f} {{ void operator{r.choice(["+", "-=", "()", "<", ">>", "!=", "[]"])}('] + pl() + [f') {body} }};'])
        elif kind == 'lambda': A([f'auto {f} = []('] + pl() + [f'){r.choice(["", " mutable", " -> void"])} {body};'])
        elif kind == 'deleted': A([f'void {f}('] + pl() + [') = delete;'])
        elif kind == 'decl': A([f'void {f}('] + pl() + [');'])
        elif kind == 'template': A([f'template<class U> void {f}(U u, const U &v, '] + pl() + [f') {body}'])
        elif kind == 'tmethod': A([f'template<class U> struct C{f} {{ void {f}(U u, '] + pl() + [f') {body} }};'])
        elif kind == 'redecl':
            D = [s.redecl(ps) for _ in range(r.choice([1, 1, 2]))] + [ps] + ([s.redecl(ps)] if r.random() < .3 else [])
            if r.random() < .4:
                for p, q in reversed(list(zip(ps, r.choice(D)))):
                    if p.how not in ('val', 'cval', 'cref') or p.t.nocopy: break
                    q.deflt = ' = {}'
                    if r.random() < .5: break
            for d in D: A([f'void {f}('] + s.plist(d, d is ps) + [f') {body}' if d is ps else ');'])
        elif kind == 'outofline':
            A([f'struct C{f} {{ void {f}('] + s.plist(s.redecl(ps), False) + [') const; };']); A([f'void C{f}::{f}('] + pl() + [f') const {body}'])
    def redecl_same(s, ps): return [Par(t=p.t, text=p.text, fixed=None, w=None, fix=False, size=0) for p in ps]
    def loop(s, f):
        r = s.r; t = r.choice(s.T); T = t.name; n = 'x1'; how = r.choice(['val', 'val', 'val', 'cval', 'none']); auto = r.random() < .4; W = 'auto' if auto else T
        text, fixed = {'val': (f'{W} {n}', f'const {W} &{n}'), 'cval': r.choice([(f'const {W} {n}', f'const {W} &{n}'), (f'{W} const {n}', f'{W} const &{n}')]), 'none': (r.choice([f'{W} &{n}', f'const {W} &{n}'] + ([f'auto &&{n}'] if auto else [])), None)}[how]
        if t.nocopy and how != 'none': how = 'none'; text, fixed = f'const {T} &{n}', None
        if any(t.name == x.name and not x.plain and x.cost for x in s.T) and how != 'none' and t.cost and getattr(t, 'nonconst', 0): how = 'none'; text = f'{T} &{n}'
        b, c = s.body(t, n, 'val' if how == 'val' else 'cval')
        arr = r.random() < .2
        p = Par(t=t, text=text, fixed=fixed, how=how, size=0); p.w = 'loop' if not arr and t.cost and (how == 'cval' or how == 'val' and not c) else None; p.fix = bool(p.w)
        cont = 'arr' if arr else r.choice(['c', 'd', f'Cont<{T} >()'])
        s.lines.append([f'void {f}({T} (&arr)[3], Cont<{T} > &c, const Cont<{T} > &d) {{ for (', (p, True), f' : {cont}) {{ {b} }} }}'])
def sq(t): return ''.join(t.split())
def kind(x):
    if x.check == 'range-loop-reference': return 'loop', ''
    if x.check == 'function-args-by-value': return 'val', ''
    if 'non-trivial type' in x.msg: return 'nt', ''
    return 'big', int(x.msg.split(' is ')[-1].split()[0]) if ' is ' in x.msg else 0
def offsets(b):
    o = [0]
    for i, x in enumerate(b):
        if x == 10: o.append(i + 1)
    return o
def run(ctx):
    r = ctx.rng; st = build.standalone()
    ctx.rule = ('random functions of every kind (free, members, constructors, operators, virtual, overriding, deleted, templates, lambdas, with further declarations and default arguments) and range-for loops, with parameters and variables of types whose size and copy cost are known, in every way to pass them and with bodies that change them or not; '
                'the warnings are compared, place by place, with those due, and the source with the fix-its applied is compared with the intended one and compiled; non-trivial = at least five warnings are due')
    n = bad = 0; lim = 60000 if ctx.tier == 'thorough' else 4000 if ctx.deep else 1600
    def one(a):
        d, text, fixed, E, opt = a
        os.makedirs(d)
        for nm, t in (('m.cpp', text), ('c_.h', HEAD)):
            with open(os.path.join(d, nm), 'w') as fh: fh.write(t)
        try: p = R.tool([st, '-checks=' + ','.join(CHECKS), os.path.join(d, 'm.cpp'), '--', '-fdiagnostics-parseable-fixits', '-std=c++17', '-w'], cwd=d, env={'CLAZY_EXTRA_OPTIONS': 'function-args-by-value-warn-for-overridden-methods'} if opt else None)
        except Exception: return a, None, None, None
        b = text.encode(); o = offsets(b); fx = set()
        for l in p.stderr.split('\n'):
            m = FIX.match(l)
            if m and os.path.basename(unesc(m[1])) == 'm.cpp': fx.add((o[int(m[2]) - 1] + int(m[3]) - 1, o[int(m[4]) - 1] + int(m[5]) - 1, unesc(m[6])))
        nb = b
        for s, e, t in sorted(fx, reverse=True): nb = nb[:s] + t.encode() + nb[e:]
        f = os.path.join(d, 'fixed.cpp')
        with open(f, 'wb') as fh: fh.write(nb)
        q = R.tool(['clang++-20', '-fsyntax-only', '-ferror-limit=0', '-std=c++17', '-w', f], cwd=d) if shutil.which('clang++-20') else None
        return a, p, nb.decode(), q
    with cf.ThreadPoolExecutor(build.JOBS) as ex:
        while n < lim and ctx.left() > 2 and not ctx.fresh_fail():
            todo = []
            for _ in range(32):
                g = Gen(r); t, f, E = g.file(); todo.append((os.path.join(ctx.scratch, f's{n}'), t, f, E, g.opt)); n += 1
            for (d, text, fixed, E, opt), p, nb, q in ex.map(one, todo):
                rep = {'source': text, 'header': HEAD, 'checks': CHECKS, 'option': opt}
                if p is None or p.returncode < 0 or p.returncode >= 128: ctx.fail('crash', 'clazy-standalone died', rep); continue
                D = R.parse(p.stderr); L = text.split('\n')
                err = [x for x in D if 'error' in x.sev]
                shutil.rmtree(d, ignore_errors=True)
                if err: bad += 1; ctx.notes = [f'{bad} of {n} generated files do not compile, e.g. {err[0]}: {L[err[0].line - 1] if 0 < err[0].line <= len(L) else ""}']; continue
                got = {(x.line, x.col) + kind(x) for x in D if x.check in CHECKS and x.sev == 'warning'}
                got = {(l, c, k, z if any(e[:3] == (l, c, k) and e[3] for e in E) else '') for l, c, k, z in got}
                if len(E) > 4: ctx.case(text, {'warnings': sorted(E, key=str)[:4]})
                else: ctx.evals += 1
                N = {'nt': 'function-args-by-ref', 'big': 'function-args-by-ref', 'val': 'function-args-by-value', 'loop': 'range-loop-reference'}
                w = 0
                for l, c, k, z in sorted(E - got, key=str): ctx.fail(f'missing-{k}', f'no {N[k]} warning ({k} {z}) at column {c} of: {L[l - 1]}', {**rep, 'line': l}); w = 1; break
                for l, c, k, z in sorted(got - E, key=str): ctx.fail(f'unexpected-{k}', f'unexpected {N[k]} warning ({k} {z}) at column {c} of: {L[l - 1]}', {**rep, 'line': l}); w = 1; break
                if w: continue
                for i, (x, y) in enumerate(zip(nb.split('\n'), fixed.split('\n'))):
                    if sq(x) != sq(y): ctx.fail('fix-it', f'with the fix-its applied the line is: {x}   and not: {y}', {**rep, 'line': i + 1, 'fixed': nb}); break
                else:
                    if nb.count('\n') != fixed.count('\n'): ctx.fail('fix-it', 'the fix-its change the number of lines', {**rep, 'fixed': nb}); continue
                    if q is not None and q.returncode:
                        e = [x for x in R.parse(q.stderr) if 'error' in x.sev]
                        if e: ctx.fail('fix-compiles', f'with the fix-its applied: {e[0]}: {nb.split(chr(10))[e[0].line - 1]}', {**rep, 'fixed': nb})
