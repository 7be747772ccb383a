"""Generates valid C++ programs full of declarations and uses that are named like Qt's, with arbitrary signatures:
the vocabulary is harvested from the string literals of clazy's sources."""
import re, os, glob, functools
import build
ID = r'[A-Za-z_]\w*'
@functools.lru_cache(None)
def vocab():
    S = set()
    for f in sorted(glob.glob(build.REPO + '/src/**/*.cpp', recursive=True) + glob.glob(build.REPO + '/src/*.h')):
        S |= set(re.findall(r'"([A-Za-z_:<>~]{2,60})"', open(f, errors='replace').read()))
    cls, meth, pairs = set(), set(), set()
    for s in S:
        m = re.fullmatch(rf'({ID})(?:<>)?::({ID})', s)
        if m and re.match(r'[QK][A-Z]|Q', m[1]): pairs.add((m[1], m[2])); cls.add(m[1])
        elif re.fullmatch(r'Q[A-Z][A-Za-z]+', s) or re.fullmatch(r'K[A-Z]\w+', s): cls.add(s)
        elif re.fullmatch(r'[a-z]\w+', s): meth.add(s)
    CPP = set('const void int unsigned this public private protected operator struct class enum signal slot signals slots emit inline return break continue foreach long short char std slots getenv putenv base public'.split())
    cls -= {'QT', 'QStringLiteral', 'QPrivateSignal'}
    return sorted(cls), sorted(meth - CPP), sorted((a, b) for a, b in pairs if re.match(r'[a-z]', b) and b not in CPP)
TEMPL = ['QList', 'QVector', 'QMap', 'QHash', 'QSet', 'QMultiMap', 'QMultiHash', 'QLinkedList', 'QVarLengthArray', 'QStack', 'QQueue', 'QPointer', 'QSharedPointer', 'QScopedPointer', 'QWeakPointer', 'QFlags', 'QPair', 'QVectorIterator', 'QFuture', 'QAtomicPointer', 'QBasicAtomicInteger', 'QTypeInfo', 'QCache', 'QForeachContainer', 'QStringBuilder', 'QGlobalStatic', 'QNonConstOverload', 'QConstOverload', 'QOverload']
CONTM = ['begin', 'end', 'cbegin', 'cend', 'constBegin', 'constEnd', 'size', 'count', 'length', 'isEmpty', 'at', 'value', 'first', 'last', 'front', 'back', 'append', 'prepend', 'push_back', 'insert', 'insertMulti', 'erase', 'remove', 'removeAll', 'take', 'find', 'constFind', 'keys', 'values', 'contains', 'reserve', 'data', 'constData', 'clear', 'toList', 'swap', 'get', 'fill', 'indexOf', 'rbegin', 'rend', 'keyValueBegin', 'equal_range', 'lowerBound', 'resize']
FREE = ['qobject_cast', 'qDeleteAll', 'qgetenv', 'qputenv', 'getenv', 'putenv', 'qMin', 'qMax', 'qBound', 'qHash', 'qFuzzyIsNull', 'qIsNaN', 'qOverload', 'qmlRegisterType', 'qmlRegisterUncreatableType', 'qsizetype_', 'connect', 'move', 'qEnvironmentVariableIsSet', 'singleShot', 'swap', 'qstring_free', 'tr', 'QStringLiteral_', 'qCross', 'qIsInf', 'qIsFinite', 'isnan', 'abs', 'qAbs', 'sort', 'arg', 'exec', 'event', 'qt_assert', 'qt_noop', 'disconnect', 'qAsConst', 'as_const']
MACROS = r'''
#define Q_OBJECT public: static const int staticMetaObject; virtual int qt_metacall(int); static void qt_static_metacall(void *); private:
#define Q_GADGET public: static const int staticMetaObject; private:
#define signals public __attribute__((annotate("qt_signal")))
#define Q_SIGNALS signals
#define slots __attribute__((annotate("qt_slot")))
#define Q_SLOTS slots
#define Q_SIGNAL __attribute__((annotate("qt_signal")))
#define Q_SLOT __attribute__((annotate("qt_slot")))
#define Q_INVOKABLE __attribute__((annotate("qt_invokable")))
#define Q_SCRIPTABLE __attribute__((annotate("qt_scriptable")))
#define emit
#define Q_EMIT
#define Q_PROPERTY(...)
#define Q_ENUMS(...)
#define Q_ENUM(...)
#define Q_FLAG(...)
#define Q_UNUSED(x) (void)x;
#define Q_DECL_UNUSED
#define Q_LIKELY(x) __builtin_expect(!!(x), true)
#define Q_UNLIKELY(x) __builtin_expect(!!(x), false)
#define Q_ASSERT(c) ((c) ? static_cast<void>(0) : qt_assert_())
#define Q_PRIVATE_SLOT(...)
#define Q_DECLARE_TYPEINFO(T, F)
#define Q_DECLARE_PRIVATE(C) C##Private *d_func(); friend class C##Private;
#define SIGNAL(a) qFlagLocation("2" #a)
#define SLOT(a) qFlagLocation("1" #a)
#define METHOD(a) "0" #a
#define QStringLiteral(s) (QString(s))
#define foreach(v, c) for (auto _container_ = QForeachContainer_(c); _container_.n; _container_.n = 0) for (v = *_container_.begin(); _container_.n; _container_.n = 0)
#define Q_FOREACH foreach
#define forever for (;;)
#define Q_GLOBAL_STATIC(T, n) static T n##_holder; static T *n() { return &n##_holder; }
#define Q_DISABLE_COPY(C) C(const C &) = delete; C &operator=(const C &) = delete;
#define QT_BEGIN_NAMESPACE
#define QT_END_NAMESPACE
#define Q_DECL_OVERRIDE override
#define QT_VERSION 0x060200
#define QT_VERSION_CHECK(a, b, c) ((a << 16) | (b << 8) | c)
#define QT_REQUIRE_VERSION(a, b, c) (void)a;
#define QT_STRINGIFY2(x) #x
#define Q_OS_LINUX
#define tr_noop(x) x
void qt_assert_();
const char *qFlagLocation(const char *);
template <class T> T any();
template <class C> struct QForeachContainer_ { QForeachContainer_(const C &); int n; const C &c; auto begin() const { return any<int *>(); } };
'''
class Gen:
    def __init__(s, r, focus=()):
        s.focus = list(focus)
        s.r = r; s.n = 0; s.out = []; s.classes = {}; s.order = []; s.tmpl = {}; s.vars = []; s.free = []; s.cur = None; s.enums = []
    def nm(s, p='v'): s.n += 1; return f'{p}{s.n}'
    def P(s, x): return s.r.random() < x
    def ch(s, x): return s.r.choice(x)
    # ---- types
    def prim(s): return s.ch(['int', 'int', 'bool', 'double', 'const char *', 'char', 'unsigned', 'long long', 'void *', 'short', 'float', 'char *', 'char16_t', 'unsigned char', 'const int &', 'int &&', 'int *'] + s.enums)
    def cls(s): return s.ch(s.order) if s.order else 'int'
    def cval(s, d=0):
        if s.tmpl and s.P(.35) and d < 3:
            t = s.ch(sorted(s.tmpl)); return f'{t}<' + ', '.join(s.targ(d + 1) for _ in range(s.tmpl[t])) + '>'
        return s.cls()
    def targ(s, d=0): return s.ch(['int', 'bool', 'const char *', 'double', 'char']) if s.P(.35) else (s.cval(d) + s.ch(['', '', '', ' *', ' const *']))
    def ty(s):
        k = s.r.random()
        if k < .35: return s.prim()
        c = s.cval()
        return s.ch([c, c, f'const {c} &', f'const {c} &', f'{c} &', f'{c} *', f'const {c} *', f'{c} &&', f'const {c}', f'void (*)({c})' if s.P(.3) else c])
    def rty(s):
        k = s.r.random()
        if k < .2: return 'void'
        return s.ty()
    def decl(s, t, n):
        if '(*)' in t: return t.replace('(*)', f'(*{n})')
        return f'{t} {n}'
    def asret(s, t): return t if '(*)' not in t else 'void *'
    def params(s, mx=4):
        ps = [s.ty() for _ in range(s.ch([0, 0, 1, 1, 1, 2, 2, 3, mx]))]
        return ps
    def plist(s, ps, names=True, dflt=True):
        out = []; d = False
        for t in ps:
            x = s.decl(t, s.nm('p')) if s.P(.7) or '(*)' in t else t
            if dflt and (d or s.P(.15)): d = True; x += f' = any<{t.replace("(*)", "(*)")}>()'
            out.append(x)
        return ', '.join(out)
    # ---- expressions of a type
    def lit(s, t):
        b = re.sub(r'\bconst\b|[&]', '', t).strip()
        if '*' in t and 'char' in t and t.startswith('const'): return s.ch(['""', '"a"', '"#fff"', '"2clicked()"', '"1foo(int)"', '"%1 %2"', '"\\xc3\\xa9"', 'nullptr', '__FILE__', '"(I)V"', '"%1"', '"foo" "bar"', 'R"(x)"', 'u8"x"' if False else '"x"'])
        if '*' in t: return 'nullptr'
        if b in ('int', 'unsigned', 'long long', 'short', 'double', 'float', 'char', 'unsigned char', 'bool', 'char16_t'): return s.ch(['0', '1', '2', "'a'", 'true', 'false', '1000', '(1 + 2)', 'sizeof(int)'])
        return None
    def ex(s, t, d=0):
        if t == 'void': return s.call(d) or '(void)0'
        l = s.lit(t)
        if l and s.P(.45): return f'static_cast<{t}>({l})' if ('int' not in t or '&' in t) and '*' not in t else l
        base = re.sub(r'\s*(const|&)\s*', ' ', t).strip()
        if '&&' not in t:
            vs = [v for v, vt in s.vars if re.sub(r'\s*(const|&)\s*', ' ', vt).strip() == base and (('&' not in t or 'const' in t) or 'const' not in vt) and ('*' not in t or vt.replace('&','').strip() == t)]
            if vs and s.P(.6): return s.ch(vs)
        if d < 3 and '&' not in t or 'const' in t and d < 3 and '*' not in t:
            c = s.find(base)
            if c and s.P(.7):
                e = s.docall(c, d + 1)
                if e: return e
            if base in s.classes and s.P(.5):
                k = s.ch(s.classes[base]['ctors'])
                return s.ch([f'{base}({{}})' if False else base]) + '(' + ', '.join(s.ex(p, d + 1) for p in k) + ')' if k else base + s.ch(['()', '{}'])
        return f'any<{t}>()'
    def find(s, base):
        c = [m for n in s.order for m in s.classes[n]['m'] if re.sub(r'\s*(const|&)\s*', ' ', m['rt']).strip() == base] + [f for f in s.free if re.sub(r'\s*(const|&)\s*', ' ', f['rt']).strip() == base]
        return s.ch(c) if c else None
    def obj(s, c, d, const):
        k = s.r.random()
        vs = [v for v, vt in s.vars if vt == c]; ps = [v for v, vt in s.vars if vt == c + ' *']
        if vs and k < .45: return s.ch(vs) + '.'
        if ps and k < .8: return s.ch(ps) + '->'
        if s.cur == c and k < .9: return s.ch(['', 'this->', ''])
        if k < .93 and d < 3: return s.ex(c, d + 1) + '.'
        return s.ch([f'any<{c} &>().', f'any<{c} *>()->', f'any<{c}>().'])
    def docall(s, m, d):
        args = [s.ex(p, d + 1) for p in m['ps']]
        if m.get('dflt') and args and s.P(.4): args = args[:m['req']]
        a = '(' + ', '.join(args) + ')'
        if m['cls'] is None: return m['n'] + m.get('ta', '') + a
        if m['static'] and s.P(.7): return f'{m["cls"]}::{m["n"]}{a}'
        if m['n'].startswith('operator'):
            o = s.obj(m['cls'], d, m['const'])
            o = 'this->' if o == '' else o
            return (f'{o}{m["n"]}{a}') if s.P(.4) or len(args) != 1 else s.opcall(o, m, args)
        return s.obj(m['cls'], d, m['const']) + m['n'] + a
    def opcall(s, o, m, args):
        op = m['n'][8:]; x = '(*' + o[:-2] + ')' if o.endswith('->') else o[:-1]
        if op == '[]': return f'{x}[{args[0]}]'
        if op == '()': return f'{x}({args[0]})'
        return f'({x} {op} {args[0]})'
    def call(s, d=0):
        c = [m for n in s.order for m in s.classes[n]['m']] + s.free
        if not c: return None
        if s.P(.15) and s.conn: return s.connect()
        return s.docall(s.ch(c), d)
    conn = True
    def connect(s):
        o = [n for n in s.order]
        a, b = s.ch(o), s.ch(o)
        def pmf(c):
            ms = [m for m in s.classes[c]['m'] if not m['n'].startswith('operator')]
            if not ms: return 'nullptr'
            m = s.ch(ms)
            return s.ch([f'static_cast<{s.asret(m["rt"])} ({c}::*)({", ".join(m["ps"])}){" const" if m["const"] else ""}>(&{c}::{m["n"]})' if not m['static'] else f'&{c}::{m["n"]}'] * 2 + ([f'&{c}::{m["n"]}'] if sum(x['n'] == m['n'] for x in s.classes[c]['m']) == 1 else ['nullptr']))
        lam = '[' + s.ch(['', '=', '&', '']) + '](' + s.ch(['', 'int', 'int x, const char *y', 'auto...']) + ') { ' + s.ch(['', 'return 1;', 'int q = 0; (void)q;']) + ' }'
        if lam.startswith('[=') and s.cur is None and not s.vars: lam = '[]() {}'
        snd = s.ch([f'any<{a} *>()', 'this' if s.cur else 'nullptr', f'new {a}' if any(not k for k in s.classes[a]['ctors']) else f'any<{a} *>()'])
        args = s.ch([[snd, pmf(a), f'any<{b} *>()', pmf(b)], [snd, pmf(a), lam], [snd, pmf(a), f'any<{b} *>()', lam], [snd, 'SIGNAL(' + s.ch(['clicked()', 'foo(int )', 'bar( const QString & )', 'x', '', '(']).replace('(', '(') .replace('(\x00', '(') + ')' if False else 'SIGNAL(' + s.ch(['clicked()', 'foo(int )', 'bar( const QString & )', 'x', 'x(QMap<int,QString>)']) + ')', f'any<{b} *>()', 'SLOT(' + s.ch(['close()', 'foo(int)', 'y']) + ')'], [snd], [], ['"2a()"', '"1b()"'], [snd, pmf(a), lam, '0', '1'], [pmf(a), pmf(b)], [lam], [snd, pmf(a), f'any<{b} *>()', lam, '128']])
        f = s.ch(['QObject::connect', 'QObject::connect', 'QObject::disconnect', 'QTimer::singleShot', 'connect_any', 'QMenu::addAction' ])
        if '::' in f and f.split('::')[0] not in s.classes or '::' in f and not s.classes[f.split('::')[0]].get('any'): f = 'connect'
        return f + '(' + ', '.join(args) + ')'
    # ---- statements
    def st(s, d=0):
        k = s.r.randrange(24 if d < 4 else 12)
        if k < 4:
            t = s.ch([s.cval(), s.cval() + ' *', s.prim(), s.ty()]); v = s.nm()
            if '(*)' in t: t = 'int'
            e = s.ex(t)
            if t.endswith('&') or '&&' in t: e = f'any<{t}>()' if not ('const' in t) else e
            s.nvars.append((v, t.replace('&&', '').replace('&', '').strip()))
            c = s.ch(['', '', '', 'static ', 'auto']) 
            if c == 'auto': x = f'{s.ch(["auto", "const auto", "auto &&", "const auto &"])} {v} = {s.ch([e, f"any<{t}>()"])};' if e != 'nullptr' else f'auto {v} = any<{t}>();'; s.nvars[-1] = (v, '?auto')
            else: x = f'{c}{t} {v}' + (f' = {e};' if '&' in t or t.startswith('const') or s.P(.75) or not s.dc(t) else ';')
            s.vars.append(s.nvars[-1]); return x
        if k < 8: return (s.ch(['', '', '', 'emit ', '(void)', 'Q_EMIT '])) + (s.call() or '(void)0') + ';'
        if k == 8:
            vs = [(v, t) for v, t in s.vars if not t.startswith('const') and t != '?auto' and '(' not in t]
            if vs: v, t = s.ch(vs); return f'{v} = {s.ex(t)};' if s.assignable(t) else f'(void){v};'
            return ';'
        if k == 9: return s.ch(['delete any<' + s.cls() + ' *>();', f'new {s.newable()};', f'throw_({s.ex(s.ty() if False else "int")});', 'Q_UNUSED(' + (s.ch(s.vars)[0] if s.vars else '0') + ')', f'static_cast<void>({s.ex(s.prim())});', ';'])
        if k == 10: return f'(({s.ex("bool")}) ? ({s.call() or "0"}, 0) : ({s.call() or "0"}, 1));'
        if k == 11: return s.ch([f'auto {s.nm("l")} = [{s.ch(["&", "=", ""])}]({s.plist(s.params(2), dflt=False)}) {{ {s.ch(["", "return 1;", "int i = 0; (void)i;"])} }};' if s.vars or True else ';', f'Q_ASSERT({s.ex("bool")});', f'if (dynamic_cast<{s.cls()} *>(any<QObject *>())) {{}}' if 'QObject' in s.classes else ';', f'qobject_cast<{s.cls()} *>({s.ex("QObject *") if "QObject" in s.classes else "nullptr"});' ])
        sv = len(s.vars)
        def blk():
            n0 = len(s.vars); r = '{ ' + ' '.join(s.st(d + 1) for _ in range(s.ch([0, 1, 1, 2, 3]))) + ' }'; del s.vars[n0:]; return r
        if k == 12: x = f'if ({s.ch([s.ex("bool"), "!" + s.ex("bool"), s.ex("bool") + " && " + s.ex("bool")])}) {blk()}' + (f' else {blk()}' if s.P(.4) else '')
        elif k == 13:
            v = s.nm('i'); e = s.ex('int'); 
            x = f'for (int {v} = 0; {v} < {e}; ++{v}) {blk()}' if s.P(.6) else f'for (;;) {blk()}'
        elif k == 14: x = f'while ({s.ex("bool")}) {blk()}'
        elif k == 15: x = f'do {blk()} while ({s.ex("bool")});'
        elif k == 16:
            it = s.iterable(); v = s.nm('e')
            x = f'for ({s.ch(["auto", "const auto &", "auto &", "auto &&", "const auto"])} {v} : {it}) {blk()}' if it else ';'
            if it and 'auto &' in x and '&&' not in x and 'const auto &' not in x: x = x.replace('auto &', 'auto &&', 1)
        elif k == 17: x = f'switch ({s.ex("int")}) {{ case 0: {blk()} break; case 1: default: {blk()} }}'
        elif k == 18: x = f'foreach (auto {s.nm("f")}, {s.ex(s.cval())}) {blk()}'
        elif k == 19: x = s.ch(['[&]', '[=]']) + '() mutable ' + blk() + '();'
        elif k == 20: x = blk()
        elif k == 21: x = f'{{ struct {s.nm("Loc")} {{ int a; void m() {{ {s.ch(["", "a = 1;", "return;"])} }} }}; }}'
        elif k == 22: x = f'if ({s.ch(["auto", "const auto"])} *{s.nm("q")} = any<{s.cls()} *>()) {blk()}'
        else: x = f'goto {s.nm("L")}; L{s.n}: {blk()}' if False else f'try_({s.ex("int")});'
        del s.vars[sv:]
        return x
    def dc(s, t):
        if '&' in t or t.startswith('const'): return False
        return t not in s.classes or any(not k for k in s.classes[t]['ctors'])
    def newable(s):
        c = s.cls()
        if c == 'int': return 'int'
        k = s.ch(s.classes[c]['ctors']); return c + '(' + ', '.join(s.ex(p) for p in k) + ')'
    def assignable(s, t): return True
    def iterable(s):
        c = [n for n in s.order if s.classes[n].get('iter')]
        t = [x for x in sorted(s.tmpl) if s.titer.get(x)]
        o = []
        if c: n = s.ch(c); o.append(s.ex(n)); o.append(f'any<{n} &>()')
        if t:
            n = s.ch(t); ty = f'{n}<' + ', '.join(s.targ() for _ in range(s.tmpl[n])) + '>'; o += [f'any<{ty}>()', f'any<const {ty} &>()', f'any<{ty} &>()']
            vs = [v for v, vt in s.vars if any(vt.startswith(x + '<') for x in t) and not vt.endswith('*')]
            if vs: o += [s.ch(vs)] * 3
        return s.ch(o) if o else None
    def body(s, rt, cur=None, ps=()):
        s.cur, old, ov = cur, s.cur, s.vars
        s.vars = list(ps); s.nvars = []
        b = [s.st() for _ in range(s.ch([0, 1, 2, 3, 4, 6]))]
        if rt != 'void':
            e = s.ex(rt) if not ('&' in rt and 'const' not in rt) else f'any<{rt}>()'
            if e == 'nullptr' or True: b.append(s.ch([f'return {e};', f'return any<{rt}>();']))
        elif s.P(.15): b.append(s.ch(['return;', 'return ' + (s.voidcall() or '(void)0') + ';']))
        s.cur, s.vars = old, ov
        return '{\n    ' + '\n    '.join(b) + '\n}'
    def voidcall(s):
        c = [m for n in s.order for m in s.classes[n]['m'] if m['rt'] == 'void'] + [f for f in s.free if f['rt'] == 'void']
        return s.docall(s.ch(c), 1) if c else None
    # ---- declarations
    def template(s, n):
        k = 2 if n in ('QMap', 'QHash', 'QMultiMap', 'QMultiHash', 'QPair', 'QCache', 'QStringBuilder') else 1
        s.tmpl[n] = k
        T = ['T', 'U'][:k]; L = [f'template <{", ".join("class " + t for t in T)}> class {n} {{ public:']
        self_ = f'{n}<{", ".join(T)}>'
        it = s.P(.7)
        if it:
            L.append('    class iterator { public: ' + f'{T[-1]} &operator*() const; {T[-1]} *operator->() const; iterator &operator++(); iterator operator++(int); iterator operator+(int) const; bool operator==(const iterator &) const; bool operator!=(const iterator &) const; {T[0]} key() const; {T[-1]} &value() const; }};')
            L.append('    class const_iterator { public: ' + f'const {T[-1]} &operator*() const; const_iterator &operator++(); const_iterator(iterator); const_iterator(); bool operator==(const const_iterator &) const; bool operator!=(const const_iterator &) const; }};')
            L.append('    iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const;')
        s.titer[n] = it
        L.append(f'    {n}(); {n}(const {self_} &); ' + (f'{n}(int); ' if s.P(.4) else '') + (f'~{n}();' if s.P(.5) else ''))
        for m in s.r.sample(CONTM, s.ch([3, 8, 15])):
            if m in ('begin', 'end') : continue
            for _ in range(s.ch([1, 1, 2])):
                a = ', '.join(s.r.choice(['int', f'const {T[0]} &', f'const {T[-1]} &', T[-1], f'const {self_} &', 'iterator' if it else 'int', 'bool']) + ' ' for _ in range(s.ch([0, 0, 1, 1, 2])))
                L.append(f'    {"static " if s.P(.05) else ""}{s.ch(["void", "int", T[-1], T[-1] + " &", "const " + T[-1] + " &", self_, self_ + " &", "bool", "iterator" if it else "int", "const_iterator" if it else "int"])} {m}({a}){s.ch(["", " const"])};'.replace('static ', '') )
        if s.P(.7): L.append(f'    {T[-1]} &operator[](int); const {T[-1]} &operator[](int) const;')
        if s.P(.5): L.append(f'    {self_} &operator<<(const {T[-1]} &); {self_} &operator+=(const {T[-1]} &);')
        if s.P(.5): L.append(f'    {self_} &operator=(const {self_} &);')
        if s.P(.3): L.append(f'    bool operator==(const {self_} &) const; {self_} operator+(const {self_} &) const;')
        if s.P(.3): L.append('private: int d;')
        L.append('};')
        # overloads with the same signature are dropped
        seen = set(); R = []
        for x in L:
            m = re.match(r'    (?:.*?)(\w+)\((.*)\)( const)?;$', x)
            if m and m[1] in CONTM:
                key = (m[1], m[2].replace(' ', ''), m[3])
                if (m[1]) in seen: continue
                seen.add(m[1])
            R.append(x)
        s.out.append('\n'.join(R))
    titer = {}
    def method(s, c, n, cls_l, names, const=None):
        ps = s.params(); rt = s.asret(s.rty()); 
        key = (n, len(ps))
        if key in names: return None
        names.add(key)
        static = s.P(.12); const = (s.P(.4) if const is None else const) and not static
        m = {'n': n, 'ps': ps, 'rt': rt, 'cls': c, 'static': static, 'const': const}
        return m
    def klass(s, n):
        bases = []
        for b in s.r.sample(s.order, min(len(s.order), s.ch([0, 0, 1, 1, 1, 2]))):
            if not any(b in s.anc(x) or x in s.anc(b) for x in bases): bases.append(b)
        qo = 'QObject' in s.classes and (n.startswith('QW') or s.P(.3)) and not any('QObject' in s.anc(b) for b in bases)
        if qo: bases.append('QObject')
        s.anc_[n] = {n} | {a for b in bases for a in s.anc(b)}
        info = s.classes[n] = {'m': [], 'ctors': [], 'bases': bases}
        L = [f'{s.ch(["class", "class", "struct"])} {n}' + (' : ' + ', '.join(s.ch(['public ', 'public ', '', 'protected ']) + ('virtual ' if s.P(.05) else '') + b for b in bases) if bases else '') + ' {']
        if s.P(.4) and ('QObject' in s.anc_[n] or s.P(.1)): L.append(s.ch(['Q_OBJECT', 'Q_OBJECT', 'Q_GADGET']))
        L.append('public:')
        if s.P(.3): L.append(f'    Q_PROPERTY({s.ch(["int", "QString", "QObject *", "QMap<int,int>", "bool"])} {s.nm("prop")} {s.ch(["READ a", "READ a WRITE b", "READ a NOTIFY c", "MEMBER m_x", "READ a CONSTANT", "", "READ", "NOTIFY"])})')
        if s.P(.3): e = s.nm('E'); L.append(f'    enum {s.ch(["", "class "])}{e} {{ {e}A = 1, {e}B = {s.ch(["2", "3", "0x4", "-1", "1 << 3", e + "A"])}, {e}C {s.ch(["", "= 5", "= 8"])} }};')
        names = set(); ctor = set()
        info['ctors'].append([]); ctor.add(0)
        body = s.P(.5)
        L.append(f'    {n}()' + s.ch([';', ' {}', ' = default;', ';']))
        if bases and '= default' in L[-1]: L[-1] = f'    {n}();'
        for _ in range(s.ch([0, 0, 1, 2])):
            ps = s.params(3)
            if len(ps) in ctor or len(ps) == 1 and re.sub(r'const|&', '', ps[0]).strip() == n: continue
            ctor.add(len(ps)); info['ctors'].append(ps)
            L.append(f'    {s.ch(["explicit ", "", ""])}{n}({s.plist(ps, dflt=False)});')
        for x in [f'{n}(const {n} &);', f'{n} &operator=(const {n} &);', s.ch(['virtual ', '']) + f'~{n}();']:
            if s.P(.35): L.append('    ' + x)
        if not any('virtual ~' in x for x in L) and s.P(.2) and not any(f'~{n}' in x for x in L): L.append(f'    virtual ~{n}();')
        C, M, PR = s.voc
        ms = [b for a, b in PR if a == n] + s.r.sample(M, s.ch([0, 1, 3, 6])) + (s.r.sample(CONTM, s.ch([0, 0, 4])))
        impl = []
        for m in ms:
            for _ in range(s.ch([1, 1, 2])):
                x = s.method(n, m, L, names)
                if not x or m == n: continue
                sp = s.ch(['', '', '', '', 'public slots:', 'signals:', 'Q_SLOT ', 'Q_SIGNAL ', 'Q_INVOKABLE '])
                if sp.endswith(':'): L.append(sp)
                sig = f'{x["rt"]} {m}({s.plist(x["ps"], dflt=False)})' + (' const' if x['const'] else '')
                pre = ('static ' if x['static'] else ('virtual ' if s.P(.15) and not bases else '')) + ('inline ' if s.P(.05) else '') + (sp if sp.endswith(' ') else '')
                inline = s.P(.15)
                L.append(f'    {pre}{sig}' + (f' {{ {"return any<" + x["rt"] + ">();" if x["rt"] != "void" else ""} }}' if inline else ';'))
                if sp.endswith(':'): L.append('public:')
                info['m'].append(x)
        for o in s.r.sample(['[]', '<<', '==', '+', '+=', '()', '<', '!=', '=', '->*'], s.ch([0, 0, 1, 3])):
            ps = [s.ch(['int', f'const {n} &', 'const char *'])] if o != '=' else ['int']
            if ('operator' + o, 1) in names: continue
            names.add(('operator' + o, 1)); rt = s.ch([n, f'{n} &', 'bool', 'int', 'void'])
            info['m'].append({'n': 'operator' + o, 'ps': ps, 'rt': rt, 'cls': n, 'static': False, 'const': o in ('==', '<', '!=')}); L.append(f'    {rt} operator{o}({s.plist(ps, dflt=False)}){" const" if o in ("==", "<", "!=") else ""};')
        if s.P(.15): L.append(f'    operator {s.ch(["bool", "int", "const char *"])}() const;') if False else None
        if s.P(.2): L.append('    int *begin(); int *end(); const int *begin() const; const int *end() const;'); info['iter'] = True; info['m'] = [m for m in info['m'] if m['n'] not in ('begin', 'end')]; L[:] = [l for l in L if not re.search(r'\b(begin|end)\(', l) or 'const int *begin' in l]
        if n in ('QObject', 'QTimer', 'QMenu') and s.P(.8): L.append('    template <class... A> static int connect(A &&...); template <class... A> static bool disconnect(A &&...); template <class... A> static void singleShot(A &&...); template <class... A> static int addAction(A &&...);'); info['any'] = True; info['m'] = [m for m in info['m'] if m['n'] not in ('connect', 'disconnect', 'singleShot', 'addAction')]; L[:] = [l for l in L if not re.search(r'\b(connect|disconnect|singleShot|addAction)\((?!A)', l)]
        L.append(s.ch(['private:', '', 'protected:']))
        for _ in range(s.ch([0, 1, 2, 4])):
            t = s.cval() if s.P(.4) else s.ch(['int', 'bool', 'char', 'double', 'void *'])
            if t == n or s.inc(t, n): t = t.split('<')[0] == n and 'int' or n + ' *'
            L.append(f'    {s.ch(["", "", "static ", "mutable "])}{t} {s.nm("m_")};')
        L.append('};')
        s.order.append(n)
        s.out.append('\n'.join(x for x in L if x is not None))
    def inc(s, t, n): return n in re.findall(r'\w+', t)
    anc_ = {}
    def anc(s, n): return s.anc_[n]
    def program(s):
        s.anc_ = {}; s.titer = {}; s.nvars = []
        s.voc = vocab(); C, M, PR = s.voc
        for t in s.r.sample(TEMPL, s.ch([0, 2, 5, 9])): s.template(t)
        # every class is known beforehand
        want = s.r.sample(C, s.ch([2, 4, 8, 14])) + (['QObject'] if s.P(.8) else []) + (['QString'] if s.P(.8) else []) + (['QTimer'] if s.P(.3) else []) + (['QMenu'] if s.P(.1) else [])
        want = list(dict.fromkeys(x for x in want if x not in s.tmpl))
        fc, fm, ff = focusvoc(s.focus) if s.focus else ([], [], [])
        if s.focus: want = list(dict.fromkeys(s.r.sample(fc, min(len(fc), s.ch([1, 2, 4]))) + want[:s.ch([1, 3, 6])])); want = [x for x in want if x not in s.tmpl]
        s.r.shuffle(want)
        if s.P(.7): want.sort(key=lambda x: (x != 'QString', x != 'QObject'))
        if s.P(.2): s.out.insert(0, 'namespace N { int f(); }')
        for e in range(s.ch([0, 1])): n = s.nm('En'); s.out.append(f'enum {n} {{ {n}x, {n}y = 7 }};'); s.enums.append(n)
        for c in want: s.klass(c)
        for f in s.r.sample(FREE, s.ch([0, 3, 8])) + s.r.sample(ff, min(len(ff), s.ch([0, 2, 4]))):
            ps = s.params(3); rt = s.asret(s.rty())
            if f in ('qobject_cast', 'connect', 'move'): continue
            s.free.append({'n': f, 'ps': ps, 'rt': rt, 'cls': None}); s.out.append(f'{rt} {f}({s.plist(ps, dflt=False)});')
        s.out.append('template <class T, class U> T qobject_cast(U &&); template <class... A> int connect(A &&...); template <class... A> int connect_any(A &&...); void throw_(int); void try_(int); namespace std { template <class T> T &&move(T &); }')
        if s.P(.3): s.out.append('using namespace std;') if False else None
        for n in list(s.order):
            # definitions of some members
            for m in s.classes[n]['m']:
                if s.P(.35) and not m['n'].startswith('operator'):
                    l = [x for x in s.out if re.match(rf'(class|struct) {n}\b', x)][0]
                    # only those declared without a body
                    dl = [y for y in l.split('\n') if re.search(rf'\b{re.escape(m["n"])}\(', y) and y.rstrip().endswith(';')]
                    if len([y for y in l.split('\n') if re.search(rf'\b{re.escape(m["n"])}\(', y)]) != 1 or not dl: continue
                    ns = [s.nm('a') for _ in m['ps']]
                    s.out.append(f'{m["rt"]} {n}::{m["n"]}({", ".join(s.decl(p, x) for p, x in zip(m["ps"], ns))}){" const" if m["const"] else ""}\n' + s.body(m['rt'], None if m['static'] else (n if not m['const'] else None), [(x, re.sub(r'&', '', p).strip()) for p, x in zip(m['ps'], ns) if '(*)' not in p]))
            if s.P(.3):
                k = [y for x in s.out for y in x.split('\n') if y.strip() == f'{n}();']
                if k: s.out.append(f'{n}::{n}() ' + s.body('void', n))
        for _ in range(s.ch([1, 2, 3])):
            ps = s.params(3); rt = s.asret(s.rty()); ns = [s.nm('a') for _ in ps]; f = s.nm('fn')
            head = s.ch(['', '', '', 'static ', 'template <class TT> '])
            s.out.append(f'{head}{rt} {f}({", ".join(s.decl(p, x) for p, x in zip(ps, ns))})\n' + s.body(rt, None, [(x, re.sub(r'&', '', p).strip()) for p, x in zip(ps, ns) if '(*)' not in p]))
        for _ in range(s.ch([0, 1, 2])):
            t = s.cval(); s.out.append(f'{s.ch(["static ", "const ", "", "static const "])}{t} {s.nm("g")} = any<{t}>();')
        if s.P(.2): s.out.append(f'const char *{s.nm("gl")} = "x"; static int {s.nm("gi")} = {s.ex("int")};')
        return MACROS + '\n'.join(s.out) + '\n'
@functools.lru_cache(None)
def focusvoc_(files):
    S = set()
    for f in files:
        S |= set(re.findall(r'"([A-Za-z_:<>~]{2,60})"', open(f, errors='replace').read()))
    C, M, PR = vocab()
    w = {x for y in S for x in re.findall(ID, y)}
    return sorted(x for x in w if x in C), sorted(x for x in w if x in M), sorted(x for x in w if re.fullmatch(r'[a-z]\w+', x) and x not in ('signals', 'slots', 'emit', 'std', 'operator', 'const', 'bool', 'int', 'void', 'char', 'qobject_cast', 'connect', 'move'))
def focusvoc(fs): return focusvoc_(tuple(fs))
def repair(text, d, name, std='-std=c++17', rounds=6):
    """remove the lines that don't compile"""
    import subprocess
    p = os.path.join(d, name)
    lines = text.split('\n')
    for k in range(rounds):
        with open(p, 'w') as f: f.write('\n'.join(lines))
        q = subprocess.run([build.CXX, '-fsyntax-only', std, '-w', '-ferror-limit=0', '-fno-caret-diagnostics', '-ftemplate-depth=64', p], capture_output=True, text=True, errors='replace', timeout=60)
        bad = {int(m[1]) for m in re.finditer(re.escape(p) + r':(\d+):\d+: (?:fatal )?error:', q.stderr)}
        if k >= 2:
            # a whole top-level item
            for b in list(bad):
                i = b - 1
                while i > 0 and (lines[i][:1] in (' ', '{', '}', '')): i -= 1
                bad.add(i + 1); j = i + 1
                while j < len(lines) and lines[j][:1] in (' ', '{', '}', ''):
                    bad.add(j + 1); j += 1
        if not bad: return '\n'.join(lines), q.returncode == 0
        for b in bad:
            if b <= len(lines):
                l = lines[b - 1]
                lines[b - 1] = ''
    return '\n'.join(lines), False
