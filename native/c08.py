"""C08: suggested durations and colours: generated uses whose value is asserted at compile time, before and after the fix-its are applied."""
import os, re, shutil, subprocess, concurrent.futures as cf
from native import run as R
from native.c07 import FIX, unesc
import build
CHRONO = '''#pragma once
namespace std { namespace chrono { template<long N, long D> struct dur_ { long v; constexpr long ms() const { return v * N / D; } };
using hours = dur_<3600000, 1>; using minutes = dur_<60000, 1>; using seconds = dur_<1000, 1>; using milliseconds = dur_<1, 1>; using microseconds = dur_<1, 1000>; }
inline namespace literals { inline namespace chrono_literals {
constexpr chrono::hours operator""h(unsigned long long v) { return {long(v)}; } constexpr chrono::minutes operator""min(unsigned long long v) { return {long(v)}; }
constexpr chrono::seconds operator""s(unsigned long long v) { return {long(v)}; } constexpr chrono::milliseconds operator""ms(unsigned long long v) { return {long(v)}; }
constexpr chrono::microseconds operator""us(unsigned long long v) { return {long(v)}; } } } namespace chrono { using namespace literals::chrono_literals; } namespace chrono_literals = literals::chrono_literals; }
'''
COMMON = r'''#pragma once
struct QTimer { constexpr long start(int ms) { return ms; } template<long N, long D> constexpr long start(chrono_<N, D> d) { return d.ms(); } constexpr long start() { return 0; }
 constexpr long setInterval(int ms) { return ms; } template<long N, long D> constexpr long setInterval(chrono_<N, D> d) { return d.ms(); }
 static constexpr long singleShot(int ms, int = 0, int = 0) { return ms; } template<long N, long D> static constexpr long singleShot(chrono_<N, D> d, int = 0, int = 0) { return d.ms(); }
 constexpr int remaining() const { return 7; } };
struct MyTimer : QTimer { constexpr long begin(int v) { return v; } }; struct Other { constexpr long start(int ms, int = 0) { return ms; } static constexpr long singleShot(int ms, int = 0) { return ms; } };
namespace ns { struct QTimer { constexpr long start(int ms) { return ms; } }; } constexpr long start(int ms, int = 0) { return ms; }
#define ARG_(x) x
#define MSECS_ 1500
constexpr int k_ = 1000; enum { E_ = 1000 };
constexpr int hd_(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
constexpr int len_(const char *s) { int n = 0; while (s[n]) ++n; return n; }
constexpr unsigned name_(const char *s, int n) { if (n < 1 || s[0] != '#') return 1; for (int i = 1; i < n; ++i) if (hd_(s[i]) < 0) return 2; --n; ++s;
 if (n != 3 && n != 6 && n != 8 && n != 9 && n != 12) return 3; unsigned a = 255; if (n == 8) { a = hd_(s[0]) * 16 + hd_(s[1]); s += 2; n = 6; } int w = n / 3; unsigned r = a;
 for (int i = 0; i < 3; ++i) r = r * 256 + (w == 1 ? 17 * hd_(s[i]) : hd_(s[i * w]) * 16 + hd_(s[i * w + 1])); return r; }
struct QString { const char *s; int n; constexpr QString(const char *p) : s(p), n(len_(p)) {} static constexpr QString fromLatin1(const char *p, int = -1) { return p; } constexpr QString left(int k) const { QString r(""); r.s = s; r.n = k; return r; } };
struct QLatin1String { const char *s; int n; constexpr explicit QLatin1String(const char *p) : s(p), n(len_(p)) {} constexpr QLatin1String(const char *p, int k) : s(p), n(k) {} };
struct QByteArray { const char *s; int n; constexpr QByteArray(const char *p, int k = -1) : s(p), n(k < 0 ? len_(p) : k) {} };
struct QStringView { const char16_t *s; constexpr QStringView(const char16_t *p) : s(p) {} };
struct QAnyStringView { const char *s; int n; const char16_t *w = nullptr; constexpr QAnyStringView(const char *p) : s(p), n(len_(p)) {} constexpr QAnyStringView(QString p) : s(p.s), n(p.n) {} constexpr QAnyStringView(QLatin1String p) : s(p.s), n(p.n) {}
 constexpr QAnyStringView(QByteArray p) : s(p.s), n(p.n) {} constexpr QAnyStringView(QStringView p) : s(nullptr), n(0), w(p.s) {} constexpr QAnyStringView(const char16_t *p) : s(nullptr), n(0), w(p) {} };
constexpr QString operator""_s(const char *p, unsigned long) { return p; } constexpr QLatin1String operator""_L1(const char *p, unsigned long) { return QLatin1String(p); }
struct QColor { unsigned v; constexpr QColor() : v(0) {} constexpr QColor(unsigned rgb) : v(rgb | 0xff000000) {} constexpr QColor(int r, int g, int b, int a = 255) : v(((a * 256u + r) * 256 + g) * 256 + b) {}
 constexpr QColor(const char *p) : v(name_(p, len_(p))) {} constexpr QColor(QString p) : v(name_(p.s, p.n)) {} constexpr QColor(QLatin1String p) : v(name_(p.s, p.n)) {}
 static constexpr QColor fromString(QAnyStringView p) { QColor c; if (p.w) { char b[16] = {}; int n = 0; while (p.w[n] && n < 15) { b[n] = char(p.w[n]); ++n; } c.v = name_(b, n); } else c.v = name_(p.s, p.n); return c; }
 void setNamedColor(const QString &) { } constexpr QColor darker(int = 200) const { return *this; } };
constexpr unsigned takes(QColor c) { return c.v; } constexpr unsigned takes2(int, QColor c, QColor d = QColor()) { return c.v + 0 * d.v; } constexpr const char *same_(const char *p) { return p; }
struct Has { QColor c, d[2]; }; struct Color { unsigned v; constexpr Color(const char *p) : v(name_(p, len_(p))) {} static constexpr Color fromString(const char *p) { return p; } };
'''
NAMES = {1: 'no colour'}
def colour(n):
    """argb of a name, Qt's rule; None if it is none"""
    h = n[1:]
    if not n.startswith('#') or any(c not in '0123456789abcdefABCDEF' for c in h) or len(h) not in (3, 6, 8, 9, 12): return None
    a = 'ff'
    if len(h) == 8: a, h = h[:2], h[2:]
    w = len(h) // 3; p = [h[i * w:(i + 1) * w] for i in range(3)]
    return int(a + ''.join(x * 2 if w == 1 else x[:2] for x in p), 16)
def stub(n):
    """what the stub class computes for any string"""
    if not n.startswith('#'): return 1
    if any(c not in '0123456789abcdefABCDEF' for c in n[1:]): return 2
    return colour(n) if colour(n) is not None else 3
class Gen:
    def __init__(self, r): self.r = r; self.n = 0; self.chrono = r.random() < .75
    def lit(self, v=None):
        r = self.r
        if v is None: v = r.choice([1, 2, 3, 5, 7, 10, 15, 24, 30, 50, 60, 90, 100, 250, 500, 999, 1000, 1001, 1500, 3000, 3600, 6000, 60000, 61000, 90000, 3600000, 3660000, 7200000, 86400000, 0, r.randrange(1, 100000), r.randrange(1, 50) * 1000, r.randrange(1, 50) * 60000])
        k = r.randrange(9)
        if k < 5 or v == 0: t = str(v)
        elif k == 5: t = hex(v) if r.random() < .5 else '0X%X' % v
        elif k == 6: t = '0%o' % v
        elif k == 7: t = bin(v)
        else: t = re.sub(r'(?<=\d)(?=(\d{3})+$)', "'", str(v))
        return t, v
    def expr(self, d=2):
        """(text, value or None if it overflows or divides by zero, what the check takes it for, precedence) - None: not a constant it knows"""
        r = self.r; k = r.random()
        if d == 0 or k < .42:
            t, v = self.lit(); return t, v, v, 9
        if k < .82:
            a, b = self.expr(d - 1), self.expr(d - 1); op = r.choice('***/')
            def wrap(x, lo): return ('(' + x[0] + ')', x[1], None) if x[3] < lo else x[:3]
            ta, va, ca = wrap(a, 5); tb, vb, cb = wrap(b, 6)
            if va is None or vb is None or (op == '/' and vb == 0): v = None
            else:
                v = va * vb if op == '*' else abs(va) // abs(vb) * (1 if (va < 0) == (vb < 0) else -1)
                if not -2**31 <= v < 2**31: v = None
            c = None
            if ca is not None and cb is not None and v is not None: c = v
            sp = r.choice(['', ' '])
            return ta + sp + op + sp + tb, v, c, 5
        t, v = self.lit(); k = r.randrange(10)
        if k == 0: return f'{t} + {t}', (2 * v if 2 * v < 2**31 else None), None, 4
        if k == 1: return '-' + t, -v, None, 8
        if k == 2: return '(' + t + ')', v, None, 9
        if k == 3: return f'int({t})', v, None, 9
        if k == 4: return r.choice(['k_', 'E_']), 1000, None, 9
        if k == 5: return t + r.choice(['u', 'L', 'll', 'UL']), v, None, 9
        if k == 6: return f'{t} % 7', v % 7, None, 5
        if k == 7: return f'QTimer().remaining()', 7, None, 9
        if k == 8: return f'+{t}', v, None, 8
        return f'MSECS_', 1500, 1500, 9
    def timer(self):
        r = self.r
        for _ in range(20):
            t, v, c, p = self.expr(r.choice([0, 1, 1, 2, 3]))
            if 'll' in t or 'L' in t or 'u' in t:
                if not re.fullmatch(r"[0-9a-fA-FxXb']+(u|L|ll|UL)", t): continue
            break
        else: t, v, c = '1000', 1000, 1000
        self.n += 1; a = f't{self.n}'
        if not self.chrono: t = t.replace('MSECS_', '1500')
        if self.chrono and r.random() < .06: t = f'ARG_({t})'; mac = True
        else: mac = False
        f, q = r.choice([('QTimer::singleShot(%s)', 1), ('QTimer::singleShot(%s, 5)', 1), ('QTimer::singleShot(%s, 1000, 3)', 1), ('QTimer().start(%s)', 1), ('QTimer().setInterval(%s)', 1), ('MyTimer().start(%s)', 1), ('::QTimer().start( %s )', 1), ('MyTimer::singleShot(%s)', 1),
                         ('QTimer::singleShot(%s, QTimer().remaining())', 1), ('Other().start(%s)', 0), ('Other::singleShot(%s)', 0), ('ns::QTimer().start(%s)', 0), ('start(%s)', 0), ('MyTimer().begin(%s)', 0), ('start(%s, (QTimer().start(k_), 3))', 0), ('Other::singleShot(%s, (MyTimer().setInterval(k_), 3))', 0)])
        use = f % t
        w = q and c is not None and c != 0
        if v is None: return f'void {a}() {{ {use}; }}', None, 'timer' if w else None, mac or 'MSECS_' in t
        return f'constexpr long {a} = {use};', f'static_assert({a} == {v});', 'timer' if w else None, mac or 'MSECS_' in t
    def name(self):
        r = self.r; k = r.random()
        h = lambda n: ''.join(r.choice('0123456789abcdefABCDEF' if r.random() < .7 else '00f') for _ in range(n))
        if k < .86: return '#' + r.choice([h(3), h(6), h(8), h(6), h(8), h(9), h(12), '000', '000000', 'ff000000', '00000000', 'fff', '0a0', '00ff00', '000001', '0f0000', '800000ff', '000fff00', 'ABCDEF', 'AbCdEf01'])
        if k < .93: return '#' + h(r.choice([0, 1, 2, 4, 5, 7, 10, 11, 13]))
        if k < .97: n = '#' + h(r.choice([3, 6, 8, 12])); i = r.randrange(1, len(n)); return n[:i] + r.choice('gGxz -') + n[i + 1:]
        return r.choice(['red', 'transparent', '', 'fff', '0xffffff', ' #fff', '123456'])
    def color(self):
        r = self.r; n = self.name(); self.n += 1; a = f'c{self.n}'; v = stub(n); L = r.choice(['"%s"', '"%s"', '"%s"', 'R"(%s)"', 'u8"%s"', '"" "%s"']) % n
        if r.random() < .08 and len(n) > 4: L = f'"{n[:4]}" "{n[4:]}"'
        A = lambda e, x=v: f'static_assert({e} == {x}u);'
        S = lambda x=n: self.what(x)
        k = r.random()
        if k < .62:
            d, e, w = r.choice([(f'constexpr QColor {a}({L});', f'{a}.v', 1), (f'constexpr QColor {a}{{{L}}};', f'{a}.v', 1), (f'constexpr QColor {a} = {L};', f'{a}.v', 1), (f'constexpr QColor {a} = {{{L}}};', f'{a}.v', 1), (f'constexpr auto {a} = QColor({L});', f'{a}.v', 1), (f'constexpr auto {a} = QColor{{{L}}};', f'{a}.v', 1),
                (f'constexpr auto {a} = (QColor){L};', f'{a}.v', 1), (f'constexpr auto {a} = static_cast<QColor>({L});', f'{a}.v', 1), (f'constexpr unsigned {a} = takes({L});', a, 1), (f'constexpr unsigned {a} = takes2(1, {L}, QColor(1, 2, 3));', a, 1), (f'constexpr unsigned {a} = takes(QColor({L}).darker(3));', a, 1),
                (f'constexpr Has {a} = {{{L}}};', f'{a}.c.v', 1), (f'constexpr Has {a} = {{QColor(1, 2, 3), {{{L}}}}};', f'{a}.d[0].v', 1), (f'constexpr QColor {a}_() {{ return {L}; }}', f'{a}_().v', 1), (f'constexpr QColor {a}_(QColor c = {L}) {{ return c; }}', f'{a}_().v', 1), (f'struct {a}_ {{ QColor c; constexpr {a}_() : c({L}) {{}} }};', f'{a}_().c.v', 1),
                (f'struct {a}_ {{ QColor c = {L}; }};', f'{a}_().c.v', 1), (f'constexpr QColor {a}[] = {{QColor(1, 2, 3), {L}}};', f'{a}[1].v', 1), (f'auto *{a} = new QColor({L});', None, 1), (f'constexpr QColor {a}(ARG_({L}));', f'{a}.v', 'm'), (f'constexpr QColor {a} = k_ > 1 ? {L} : QColor(1, 2, 3);', f'{a}.v', 1),
                (f'constexpr Color {a}({L});', f'{a}.v', 0), (f'constexpr QColor {a}(QString({L}));', f'{a}.v', 0), (f'constexpr QColor {a}(same_({L}));', f'{a}.v', 0)])
            if 'struct' in d and '= ' in d and self.r.random() < 0: pass
            return d, A(e) if e else None, S() if w else None, w == 'm'
        if L.startswith('u8'): L = L[2:]
        u = f'u"{n}"'; m = n + 'ab'
        f, x, w = r.choice([(L, n, 1), (L, n, 1), (f'QLatin1String({L})', n, 1), (f'QLatin1String{{{L}}}', n, 1), (f'QString({L})', n, 1), (f'QByteArray({L})', n, 1), (f'"{n}"_L1', n, 1), (f'"{n}"_s', n, 1), (f'({L})', n, 1), (f'static_cast<QString>({L})', n, 1), (u, n, 0), (f'QStringView({u})', n, 0),
                           (f'QLatin1String("{m}", {len(n)})', n, 0), (f'QByteArray("{m}", {len(n)})', n, 0), (f'same_({L})', n, 0), (f'k_ > 1 ? {L} : "#123"', n, 0), (f'k_ < 1 ? "#abc" : {L}', n, 0), (f'QString("{m}").left({len(n)})', n, 0)])
        g = r.choice(['QColor::fromString(%s)', 'QColor::fromString(%s)', 'QColor::fromString( %s ).darker(1)', '::QColor::fromString(%s)'] + (['Color::fromString(%s)'] if f == L else []))
        if g.startswith('Color'): w = 0
        return f'constexpr auto {a} = {g % f};', A(f'{a}.v'), S(x) if w else None, False
    def what(self, n):
        if not n.startswith('#'): return None
        if len(n) not in (4, 7, 9, 10, 13): return 'Pattern length'
        if any(c not in '0123456789abcdefABCDEF' for c in n[1:]): return 'hexadecimal'
        return 'QRgba64' if len(n) > 9 else 'cheaper'
    def file(self, n):
        L = ['#include "chrono_.h"' if not self.chrono else '#include <chrono>']
        if self.chrono: L.append('using namespace std::chrono_literals;')
        L += ['template<long N, long D> using chrono_ = std::chrono::dur_<N, D>;', '#include "common_.h"']; exp = {}; soft = set()
        for _ in range(n):
            d, a, w, mac = self.timer() if self.r.random() < .5 else self.color()
            L.append(d + (' ' + a if a else ''))
            exp[len(L)] = w
        return '\n'.join(L) + '\n', exp
def offsets(text): 
    o = [0]
    for i, x in enumerate(text): 
        if x == 10: o.append(i + 1)
    return o
def run(ctx):
    r = ctx.rng; st = build.standalone()
    ctx.rule = ('random sources with up to forty uses each of QTimer functions (products and quotients of literals in every base, casts, other classes, overflows, divisions by zero) and of QColor (direct, copy and list initialization, conversions, every form of fromString, names of every length); '
                'the value of every use is asserted at compile time, the fix-its are applied and the file is compiled again; non-trivial = a file with at least five fix-its')
    n = 0; lim = 40000 if ctx.tier == 'thorough' else 3000 if ctx.deep else 1200
    def one(a):
        d, text, exp, comp = a
        os.makedirs(d); f = os.path.join(d, 'm.cpp')
        for nm, t in (('m.cpp', text), ('common_.h', COMMON), ('inc/chrono', CHRONO), ('chrono_.h', '#include <chrono>\n')):
            os.makedirs(os.path.dirname(os.path.join(d, nm)), exist_ok=True)
            with open(os.path.join(d, nm), 'w') as fh: fh.write(t)
        comp = comp + ['-isystem', os.path.join(d, 'inc'), '-w']
        try: p = R.tool([st, '-checks=use-chrono-in-qtimer,qcolor-from-literal', f, '--', '-fdiagnostics-parseable-fixits'] + comp, cwd=d)
        except Exception: return a, None, None, None
        b = text.encode(); o = offsets(b); fx = set()
        for l in p.stderr.split('\n'):
            m = FIX.match(l)
            if m and os.path.basename(unesc(m[1])) == 'm.cpp': fx.add((o[int(m[2]) - 1] + int(m[3]) - 1, o[int(m[4]) - 1] + int(m[5]) - 1, unesc(m[6]), int(m[2])))
        nb = b
        for s, e, t, _ in sorted(fx, reverse=True): nb = nb[:s] + t.encode() + nb[e:]
        fixed = os.path.join(d, 'fixed.cpp')
        with open(fixed, 'wb') as fh: fh.write(nb)
        q = subprocess.run(['clang++-18', '-fsyntax-only', '-ferror-limit=0'] + comp + [fixed], capture_output=True, text=True, cwd=d)
        return a, p, fx, q
    with cf.ThreadPoolExecutor(build.JOBS) as ex:
        while n < lim and ctx.left() > 2 and not ctx.fresh_fail():
            todo = []
            for _ in range(32):
                g = Gen(r); t, exp = g.file(r.choice([5, 20, 40])); todo.append((os.path.join(ctx.scratch, f's{n}'), t, exp, [r.choice(['-std=c++17', '-std=c++17', '-std=c++20']), '-fno-char8_t'])); n += 1
            for (d, text, exp, comp), p, fx, q in ex.map(one, todo):
                rep = {'source': text, 'args': comp, 'headers': {'common_.h': COMMON, 'chrono': CHRONO}}
                if p is None or p.returncode < 0 or p.returncode >= 128: ctx.fail('crash', 'clazy-standalone died', rep); continue
                D = R.parse(p.stderr); L = text.split('\n')
                err = [x for x in D if 'error' in x.sev]
                if err: ctx.notes = [f'a generated file does not compile: {err[0]}: {L[err[0].line - 1] if 0 < err[0].line <= len(L) else ""}']; shutil.rmtree(d, ignore_errors=True); continue
                if len(fx) > 4: ctx.case(text, {'source': L[4:8], 'fixes': len(fx)})
                else: ctx.evals += 1
                for ln, w in exp.items():
                    got = [x for x in D if x.check and x.line == ln and os.path.basename(x.file) == 'm.cpp']
                    ms = {x.msg for x in got}; u = L[ln - 1]
                    if (w is None) != (not got): ctx.fail('set', f'{"no warning" if w else "unexpected warning " + repr(got[0].msg)} for: {u}', {**rep, 'line': ln}); break
                    if w is None: continue
                    if len(ms) != 1 or (w != 'timer' and w not in next(iter(ms))): ctx.fail('message', f'{sorted(ms)} for: {u}', {**rep, 'line': ln}); break
                    here = {t for _, _, t, l in fx if l == ln}
                    if w == 'timer' and here and next(iter(ms)) != f'make code more robust: use {next(iter(here))} instead.': ctx.fail('message', f'{sorted(ms)} but the fix-it is {here} for: {u}', {**rep, 'line': ln}); break
                    if w in ('timer', 'cheaper') and not here and 'ARG_' not in u and 'MSECS_' not in u: ctx.fail('fix', f'no fix-it for: {u}', {**rep, 'line': ln}); break
                if q.returncode:
                    m = re.search(r'fixed\.cpp:(\d+):\d+: error: (.*)', q.stderr); F = open(os.path.join(d, 'fixed.cpp'), errors='replace').read().split('\n')
                    ctx.fail('value', f'with its fix-its applied the source has another value or no longer compiles: {m[2] if m else q.stderr[:300]}: {F[int(m[1]) - 1] if m else ""}', {**rep, 'fixed': '\n'.join(F), 'errors': q.stderr[:3000]})
                shutil.rmtree(d, ignore_errors=True)
