"""C10: generated QObject classes whose signals, slots and invokables are known by construction, and what is reported about them and their connections."""
import os
from native import run as R
CHECKS = ['overloaded-signal', 'overridden-signal', 'virtual-signal', 'signal-with-return-value', 'const-signal-or-slot', 'connect-by-name', 'connect-non-signal', 'fully-qualified-moc-types']
HEAD = r'''%(def)s
#define QT_ANNOTATE_ACCESS_SPECIFIER(x) %(ann)s
#define QT_ANNOTATE_FUNCTION(x)
#define Q_SIGNALS public QT_ANNOTATE_ACCESS_SPECIFIER(qt_signal)
#define Q_SLOTS QT_ANNOTATE_ACCESS_SPECIFIER(qt_slot)
#define signals Q_SIGNALS
#define slots Q_SLOTS
#define Q_SIGNAL QT_ANNOTATE_FUNCTION(qt_signal)
#define Q_SLOT QT_ANNOTATE_FUNCTION(qt_slot)
#define Q_INVOKABLE QT_ANNOTATE_FUNCTION(qt_invokable)
#define Q_SCRIPTABLE QT_ANNOTATE_FUNCTION(qt_scriptable)
#define Q_NOREPLY
#define Q_REVISION(x)
#define MY_EXPORT
#define MY_VOID void
#define MY_PRIVATE private:
#define MY_DATA(n) public: int data_##n() const; private: int d_##n;
#define Q_OBJECT public: virtual const int *metaObject() const; static const int staticMetaObject; private:
struct S { int s; }; using I = int;
%(open)s
template <typename... A> struct QNonConstOverload { template <typename R, typename T> constexpr auto operator()(R (T::*p)(A...)) const { return p; } template <typename R, typename T> static constexpr auto of(R (T::*p)(A...)) { return p; } };
template <typename... A> struct QConstOverload { template <typename R, typename T> constexpr auto operator()(R (T::*p)(A...) const) const { return p; } template <typename R, typename T> static constexpr auto of(R (T::*p)(A...) const) { return p; } };
template <typename... A> struct QOverload : QConstOverload<A...>, QNonConstOverload<A...> { using QConstOverload<A...>::of; using QConstOverload<A...>::operator(); using QNonConstOverload<A...>::of; using QNonConstOverload<A...>::operator(); };
template <typename... A> constexpr QOverload<A...> qOverload = {}; template <typename... A> constexpr QNonConstOverload<A...> qNonConstOverload = {}; template <typename... A> constexpr QConstOverload<A...> qConstOverload = {};
struct QObject { virtual ~QObject(); virtual const int *metaObject() const;
 template<class A, class F, class B, class G> static int connect(const A *, F, const B *, G, int = 0) { return 0; } template<class A, class F, class G> static int connect(const A *, F, G) { return 0; } static int connect(const QObject *, const char *, const QObject *, const char *, int = 0); };
%(close)s
struct QDBusAbstractInterface : public QObject { Q_OBJECT };
struct NotQObject { template<class A, class F, class B, class G> static int connect(const A *, F, const B *, G, int = 0) { return 0; } };
'''
TYPES = [('int', 'int'), ('I', 'int'), ('const int', 'int'), ('double', 'double'), ('int &', 'int&'), ('I &', 'int&'), ('const int &', 'cint&'), ('S', 'S'), ('S *', 'S*'), ('const S *', 'cS*'), ('const S &', 'cS&'), ('S &&', 'S&&')]
NONE, UNK, SLOT, SIG, INV = range(5)
WORD = {SLOT: 'slot', SIG: 'signal', INV: 'invokable'}
class M:
    def __init__(s, **k): s.__dict__.update(k)
class Cls:
    def __init__(s, name, bases, q): s.name, s.bases, s.q, s.ms = name, bases, q, []
    def qbase(s): return next((b for b in s.bases if b.q), None)
    def dbus(s): return s.name == 'QDBusAbstractInterface' or any(b.dbus() for b in s.bases)
class Gen:
    def __init__(s, r): s.r, s.L, s.classes, s.n, s.off = r, [], [], 0, 0
    def out(s, t): s.L.append(t); return len(s.L)
    def marks(s):
        r = s.r; x = r.random()
        if x < .62: return []
        m = [r.choice(['Q_SIGNAL', 'Q_SLOT', 'Q_INVOKABLE', 'Q_INVOKABLE'])] if x < .95 else []
        if r.random() < .15 or not m: m.insert(r.randrange(len(m) + 1), 'Q_SCRIPTABLE')
        if r.random() < .1: m.insert(r.randrange(len(m) + 1), r.choice(['Q_NOREPLY', 'Q_REVISION(3)', 'MY_EXPORT']))
        if len(m) and r.random() < .04: m.append(r.choice(['Q_SLOT', 'Q_SIGNAL', 'Q_INVOKABLE']))
        return m
    def method(s, c, sec, sure=False):
        r = s.r; marks = s.marks() if not sure else []
        role = NONE
        for k, v in (('Q_SIGNAL', SIG), ('Q_SLOT', SLOT), ('Q_INVOKABLE', INV)):
            if k in marks: role = v; break
        else: role = sec
        scr = 'Q_SCRIPTABLE' in marks
        name = r.choice(['a', 'b', 'run', 'on_x_y', 'on_x', 'on_x_y_z', 'on__q', 'on_x_y_', 'xon_a_b', 'fooBar', f'm{s.n}', f'm{s.n}', f'get{s.n}', f'on_m{s.n}_k']); s.n += 1
        if any(m.name == name for b in c.bases if not b.q for m in b.ms) and r.random() < .7: name = f'n{s.n}'
        ps = [r.choice(TYPES + [('E', c.name + '::E')] * 3) for _ in range(r.choice([0, 0, 1, 1, 2]))]
        if not c.q: ps = [p for p in ps if p[0] != 'E']
        const = r.random() < .25 and True
        static = r.random() < .06 and role != SIG
        if static: const = False
        rett = r.choice(['void', 'void', 'void', 'int', 'S', 'const S &', 'I', 'double'])
        base = None
        cand = [(b, m) for b in s.up(c) for m in b.ms]
        if cand and r.random() < .35:
            b, m = r.choice(cand)
            if not any(t[0] == 'E' for t in m.ps): name, rett = m.name, m.ret; ps = [r.choice([t for t in TYPES if t[1] == q[1]]) for q in m.ps]; const = m.const if r.random() < .9 else not m.const; static = m.static
        if role == SIG: static = False
        if static: const = False
        key = tuple(p[1] for p in ps)
        if any(m.name == name and m.key == key and (m.const == const or m.static or static) for m in c.ms): return
        over = s.overridden(c, name, key, const)
        virt = not static and (bool(over) or r.random() < .15)
        if over and any(m.ret != rett for m in over): rett = over[0].ret
        if over and any(m.ret != rett for m in over): return
        if static and s.anyvirt(c, name, key): return
        macro = r.random() < .04 and rett == 'void' and not marks
        specs = (['virtual'] if virt and (not over or r.random() < .5) else []) + (['static'] if static else []) + (['inline'] if r.random() < .08 else []) + (['[[nodiscard]]'] if rett != 'void' and r.random() < .1 and False else [])
        r.shuffle(specs)
        # markers: before, among or after the specifiers; never after the type
        toks = list(specs)
        at = r.choice([0, 0, r.randrange(len(toks) + 1)])
        if not r.random() < .1: toks[at:at] = marks
        else:
            for m in marks: toks.insert(r.randrange(len(toks) + 1), m)
        sep = lambda: r.choice([' '] * 12 + ['  ', ' /* x */ ', '\t'])
        head = ''
        k = 0
        lead = []
        while k < len(toks) and (toks[k].startswith('Q_') or toks[k] == 'MY_EXPORT'): lead.append(toks[k]); k += 1
        pre = ''
        if lead and r.random() < .12: s.out(' ' + ' '.join(lead) + r.choice(['', ' // comment', ' /* c */'])); toks = toks[k:]
        line = ' ' + r.choice(['', ' '])
        for t in toks: line += t + sep()
        plist = ', '.join(f'{p[0]} p{i}' if r.random() < .5 else p[0] for i, p in enumerate(ps))
        inline_ = (role != SIG or macro) and r.random() < .3
        body = ';'
        if inline_: body = ' { ' + s.rbody(rett) + ' }'
        elif 'inline' in specs: body = ' { throw 1; }'
        line += ('MY_VOID' if macro else rett) + ' ' + name + '(' + plist + ')' + (' const' if const else '') + body
        # nothing else on the line: the place of a warning is the line
        ln = s.out(line)
        m = M(name=name, ps=ps, key=key, const=const, static=static, virt=virt, over=over, ret=rett, role=UNK if macro and line.lstrip().startswith('MY_VOID') else role, scr=scr and not (macro and line.lstrip().startswith('MY_VOID')), line=ln, cls=c, decl=line, defined=body != ';')
        c.ms.append(m)
    def rbody(s, rett):
        r = s.r
        x = r.choice(['throw 1;', 'struct Loc_ { public: int q; private: int z; void f() {} }; throw 2;', 'class Loc_ { int q; public: void a() {} protected: int z; }; throw 3;', 'auto l_ = [] { struct In_ { private: int e; public: int g; }; return 1; }; (void)l_; throw 4;'])
        return x
    def up(s, c):
        res, todo = [], list(c.bases)
        while todo:
            b = todo.pop(0); res.append(b); todo += b.bases
        return res
    def overridden(s, c, name, key, const):
        """methods of direct overriding: per base, the nearest virtual one"""
        res = []
        for b in c.bases:
            own = [m for m in b.ms if m.name == name and m.key == key and m.const == const and not m.static]
            if own and own[0].virt: res.append(own[0])
            else: res += [m for m in s.overridden(b, name, key, const) if m not in res]
        return res
    def anyvirt(s, c, name, key): return any(m.name == name and m.key == key and m.virt for b in s.up(c) for m in b.ms)
    def cls(s):
        r = s.r; i = len(s.classes)
        qs = [c for c in s.classes if c.q]; ps = [c for c in s.classes if not c.q]
        plain = r.random() < .15
        if plain: b = [r.choice(ps)] if ps and r.random() < .3 else []
        else:
            b = [r.choice(qs)] if qs and r.random() < .6 else [s.dbus if r.random() < .1 else s.qobject]
            if ps and r.random() < .25:
                p = r.choice(ps); b.insert(r.randrange(2), p)
        c = Cls(f'K{i}', b, not plain)
        s.out(('struct ' if plain else r.choice(['class ', 'struct '])) + r.choice(['', 'MY_EXPORT ']) + c.name + (' : ' + ', '.join('public ' + x.name for x in b) if b else '') + ' {')
        if not plain: s.out(' Q_OBJECT')
        s.out('public:'); sec = NONE
        if not plain: s.out(' enum E { e_ };')
        if r.random() < .4: s.out(f' {c.name}();')
        for _ in range(r.choice([1, 3, 6, 10])):
            x = r.random()
            if x < .3:
                if plain: s.out(r.choice(['public:', 'protected:', 'public:'])); continue
                k = r.choice(['signals:', 'Q_SIGNALS:', 'signals :', 'Q_SIGNALS /* x */ :', 'public slots:', 'private slots:', 'protected Q_SLOTS:', 'public Q_SLOTS :', 'public /* c */ slots:', 'private\n Q_SLOTS:', 'public:', 'protected:', 'private:', 'public:', 'MY_PRIVATE', f'MY_DATA({s.n})'])
                s.n += 1
                for l in k.split('\n'): s.out(l)
                sec = SIG if 'ignals' in k or 'SIGNALS' in k else SLOT if 'slots' in k or 'SLOTS' in k else NONE
            elif x < .4 and sec == NONE:
                s.out(r.choice([f' struct N{s.n} {{ private: int a; public: void f(); protected: int b; }};', f' int f{s.n};', f' class N{s.n} : public QObject {{ int a; public: void g(int); private: int b; }};', f' enum X{s.n} {{ x{s.n} }};', f' friend struct Fr{s.n};', f' union {{ int u{s.n}; float v{s.n}; }};', f' template <typename T> void t{s.n}(T);', f' struct {{ public: int q; private: int z; }} an{s.n};', f' using T{s.n} = struct W{s.n} {{ int a; private: int b; }};']).replace('union {', 'union {')); s.n += 1
            else: s.method(c, sec)
        s.out('};'); s.classes.append(c)
    def defs(s):
        r = s.r
        for c in s.classes:
            for m in c.ms:
                if not m.defined and m.role in (NONE, SLOT, INV) and r.random() < .25:
                    t = m.ret if m.ret != 'E' else f'{c.name}::E'
                    s.out(f'{r.choice(["", "inline "])}{t} {c.name}::{m.name}(' + ', '.join(p[0] for p in m.ps) + ')' + (' const' if m.const else '') + ' { throw 1; }'); m.defined = True
    def connects(s):
        r = s.r; res = []
        pub = [m for c in s.classes if c.q for m in c.ms if not m.static]
        if not pub: return res
        def expr(m):
            c = m.cls; nm = f'&{c.name}::{m.name}'; args = ', '.join(p[0] if p[0] != 'E' else f'{c.name}::E' for p in m.ps)
            ov = len([x for x in c.ms if x.name == m.name]) > 1
            both = any(x is not m and x.name == m.name and x.key == m.key for x in c.ms)
            ty = f'{m.ret} ({c.name}::*)({args})' + (' const' if m.const else '')
            f = [f'static_cast<{ty}>({nm})', f'({ty}){nm}', f'({ty})({nm})', f'((({ty}){nm}))']
            if not ov: f += [nm] * 6 + [f'({nm})', 'var', 'var']
            if not any(p[0].startswith('const int') and '&' not in p[0] for p in m.ps):
                o = 'qConstOverload' if m.const else 'qNonConstOverload'
                f += [f'{o}<{args}>({nm})', f'Q{o[1:]}<{args}>::of({nm})']
                if not both: f += [f'qOverload<{args}>({nm})', f'QOverload<{args}>::of({nm})']
            x = r.choice(f)
            if x == 'var':
                v = f'v{s.n}_'; s.n += 1; s.out(f' auto {v} = {nm};'); return v
            return x
        s.out('#define private public'); s.out('#undef private')
        s.out('void connects_() {')
        for _ in range(r.choice([2, 6, 12])):
            a = r.choice(pub); b = r.choice(pub)
            if not a.acc or not b.acc: continue
            ea, eb = expr(a), expr(b)
            sa, sb = f'static_cast<{a.cls.name} *>(nullptr)', f'static_cast<{b.cls.name} *>(nullptr)'
            x = r.random()
            if x < .08: res.append((s.out(f' QObject::connect({sa}, "2{a.name}()", {sb}, "1{b.name}()");'), None, None)); continue
            if x < .16: res.append((s.out(f' NotQObject::connect({sa}, {ea}, {sb}, {eb});'), None, None)); continue
            if x < .3: res.append((s.out(f' QObject::connect({sa}, {ea}, {r.choice(["[] {}", eb])});'), a, None)); res[-1] = (res[-1][0], a, b if s.L[-1].endswith(', ' + eb + ');') else None); continue
            if x < .4: res.append((s.out(f' QObject::connect({sa}, {ea}, {sb}, [] {{}});'), a, None)); continue
            res.append((s.out(f' {r.choice(["", "", "auto c_%d = " % s.n, "(void)"])}QObject::connect({sa}, {ea}, {sb}, {eb}{r.choice(["", "", ", 3"])});'), a, b)); s.n += 1
        s.out('}')
        return res
    def file(s):
        r = s.r; ns = r.random() < .2
        ann = r.choice(['', '', '__attribute__((annotate(#x)))'])
        head = HEAD % {'def': '#define QT_NAMESPACE QN' if ns else '', 'ann': ann, 'open': 'namespace QN {' if ns else '', 'close': '} using namespace QN;' if ns else ''}
        s.qobject = Cls('QObject', [], True); s.dbus = Cls('QDBusAbstractInterface', [s.qobject], True)
        s.inner = r.random() < .2
        s.out('#include "qt_.h"')
        for _ in range(r.choice([1, 2, 4, 6])): s.cls()
        # access for connects
        acc = 'private'
        for c in s.classes:
            for m in c.ms: m.acc = s.access(m)
        s.defs(); con = s.connects()
        return head, '\n'.join(s.L) + '\n', con
    def access(s, m):
        a = 'public'
        for l in range(m.line - 2, -1, -1):
            t = s.L[l].split('//')[0].strip()
            if t.startswith(('class K', 'struct K', 'class MY', 'struct MY')): return True
            if t.startswith(('MY_PRIVATE', 'MY_DATA')): return False
            if t.endswith(':') and not t.startswith(' '):
                u = t if not t.startswith(('Q_SLOTS', 'slots')) else s.L[l - 1].strip()
                return u.startswith(('public', 'signals', 'Q_SIGNALS'))
        return True
    def expected(s, con):
        E = set()
        for c in s.classes:
            for m in c.ms:
                sig, slot = m.role == SIG, m.role == SLOT
                chain, b = [], c.qbase()
                while b: chain.append(b); b = b.qbase()
                if sig:
                    for p in [c] + chain:
                        if any(x.name == m.name and x.key != m.key for x in p.ms): E.add((m.line, 'overloaded-signal', 'here' if p is c else 'with'))
                    if m.virt and all(x.cls.q for x in m.over): E.add((m.line, 'virtual-signal', ''))
                    if not m.scr:
                        if m.ret != 'void': E.add((m.line, 'signal-with-return-value', 'return'))
                        if any(p[0] in ('int &', 'I &', 'S &&') for p in m.ps): E.add((m.line, 'signal-with-return-value', 'ref'))
                # (the first that matches in the nearest class that has one where either is a signal)
                hit = None
                for p in chain:
                    hit = next((x for x in p.ms if x.name == m.name and x.key == m.key and (sig or x.role == SIG)), None)
                    if hit: break
                if hit: E.add((m.line, 'overridden-signal', ('signal' if hit.role == SIG else 'non-signal') + ' with ' + ('signal' if sig else 'non-signal')))
                if m.const and (sig or slot) and not m.scr and not c.dbus():
                    if slot and m.ret != 'void': E.add((m.line, 'const-signal-or-slot', 'getter'))
                    if sig: E.add((m.line, 'const-signal-or-slot', 'const'))
                if slot and m.name.startswith('on_') and len(m.name.rstrip('_').split('_') if m.name.endswith('_') else m.name.split('_')) == 3: E.add((m.line, 'connect-by-name', ''))
                if m.role in WORD and any(p[0] == 'E' for p in m.ps): E.add((m.line, 'fully-qualified-moc-types', WORD[m.role]))
        for ln, a, b in con:
            if a and a.role not in (SIG, UNK): E.add((ln, 'connect-non-signal', ''))
            if b and b.const and b.ret != 'void' and b.role not in (SIG, SLOT): E.add((ln, 'const-signal-or-slot', 'connect'))
        return E
def kind(x):
    m = x.msg
    if x.check == 'overloaded-signal': return 'with' if '(with' in m else 'here'
    if x.check == 'overridden-signal': return m.split('Overriding ')[1].split(':')[0] if 'Overriding ' in m else m
    if x.check == 'signal-with-return-value': return 'return' if 'should return void' in m else 'ref'
    if x.check == 'const-signal-or-slot': return 'getter' if m.startswith('getter') else 'const' if "shouldn't be const" in m else 'connect'
    if x.check == 'fully-qualified-moc-types': return m.split()[0]
    if x.check == 'connect-non-signal' and 'is not a signal' not in m: return m
    return ''
def run(ctx):
    r = ctx.rng
    ctx.rule = ('random hierarchies of QObject classes whose methods are signals, slots, invokables, scriptable or nothing by construction (sections in every spelling, closed by access specifiers, around nested and local classes; markers before, among and after specifiers, on lines of their own, next to comments and other macros; names, overloads and overrides; with and without QT_NAMESPACE and annotations), and connections written in every form; '
                'the warnings of eight checks are compared, line by line, with those that the roles imply; non-trivial = at least five warnings are due')
    n = bad = 0; lim = 60000 if ctx.tier == 'thorough' else 4000 if ctx.deep else 1600
    while n < lim and ctx.left() > 2 and not ctx.fresh_fail():
        files, ex = {}, {}
        d = os.path.join(ctx.scratch, f'b{n}')
        for _ in range(96):
            g = Gen(r); head, text, con = g.file(); nm = f's{n}/m.cpp'; files[nm] = text; files[f's{n}/qt_.h'] = head; ex[nm] = (g.expected(con), head); n += 1
        res, crashed = R.batch(d, files, ['-checks=' + ','.join(CHECKS), '-header-filter=.*'], ['-std=c++17'])
        for nm in crashed: ctx.fail('crash', 'clazy-standalone died', {'source': files[nm], 'header': ex[nm][1]})
        for nm, (E, head) in ex.items():
            if nm in crashed: continue
            D = res[nm]; L = files[nm].split('\n'); rep = {'source': files[nm], 'header': head, 'checks': CHECKS}
            err = [x for x in D + res.get(os.path.dirname(nm) + '/qt_.h', []) if 'error' in x.sev]
            if err: bad += 1; ctx.notes = [f'{bad} of {n} generated files do not compile, e.g. {err[0]}: {L[err[0].line - 1] if err[0].line <= len(L) else ""}']; continue
            got = {(x.line, x.check, kind(x)) for x in D if x.check and x.sev == 'warning'}
            if len(E) > 4: ctx.case(files[nm], {'warnings': sorted(E)[:4]})
            else: ctx.evals += 1
            for l, c, k in sorted(E - got): ctx.fail(f'missing-{c}', f'no {c} warning ({k}) for: {L[l - 1].strip()}', {**rep, 'line': l}); break
            for l, c, k in sorted(got - E, key=str): ctx.fail(f'unexpected-{c}', f'unexpected {c} warning ({k}) for: {L[l - 1].strip()}', {**rep, 'line': l}); break
        import shutil; shutil.rmtree(d, ignore_errors=True)
