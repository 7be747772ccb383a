"""Mutants of the repository's own test inputs against the real Qt headers: statements, types, expressions and arguments
that the checks don't expect, kept if the result compiles (the checks don't run on code that does not compile)."""
import os, re, glob, random, subprocess
import build
Q = next((d for d in ('/usr/include/x86_64-linux-gnu/qt6', '/usr/include/qt6') if os.path.isdir(d)), None)
INC = ['QObject', 'QString', 'QList', 'QMap', 'QHash', 'QVariant', 'QSet', 'QStringList', 'QDateTime', 'QTimer', 'QCoreApplication', 'QDebug', 'QUrl', 'QVarLengthArray', 'QSharedPointer', 'QPointer', 'QFile', 'QDir', 'QFileInfo',
       'QEvent', 'QReadWriteLock', 'QMutex', 'QThread', 'QTextStream', 'QJsonObject', 'QRegularExpression', 'QColor', 'QPixmap', 'QSequentialIterable', 'QState', 'QModelIndex']
TOK = re.compile(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|//[^\n]*|/\*.*?\*/|#[^\n]*|[A-Za-z_]\w*|\d[\w.]*|::|->|<<=?|>=|<=|==|!=|&&|\|\||\+\+|--|[-+*/&|]=|\s+|.', re.S)
STM = ['for(;;){break;}', 'if(int z9=0;z9){}', 'try{}catch(...){}', '[](auto q9){return q9;}(1);', 'switch(0){default:;}', 'goto L9; L9:;', 'auto [a9,b9]=QPair<int,int>();', 'static_assert(true);', 'asm("");', '{;;;}', 'while(auto*p9=(QObject*)nullptr){}',
       'struct S9{int x; QString q;}; S9 s9{.x=1};', 'do;while(0);', 'using T9=int;', '({int k9=0; k9;});', 'if constexpr(true){}', '[=]()mutable{}();', 'QString();', 'QString{};', 'new QObject;', 'throw;', 'return;',
       'auto x9=[](QObject*o){ QObject::connect(o,&QObject::destroyed,[]{}); };', 'extern int e9;', 'typedef int t9[3];', 'delete (QObject*)nullptr;', 'foreach(auto x9,QList<int>()){}', 'for(auto x9:QStringList{}){}',
       'for(int i9=0;int j9=i9;);', 'case 3:;', 'int v9[]={1,2}; for(int q9:v9){}', 'switch(int a=1)while(0){case 1:;}']
TYP = ['T', 'auto', 'int', 'QString', 'QList<T>', 'typename T::type', 'decltype(T())', 'QStringList', 'const char *', 'QObject', 'QMap<QString,int>', 'QList<QString>::iterator', 'void', 'T*', 'decltype(auto)', 'QPair<T,int>', 'TT<T>', 'const T&',
       'int(*)(int)', 'QVariant', 'QByteArray', 'Fwd', 'Fwd*', 'N9<0>', 'bool', 'QHash<Fwd*,int>', 'int QObject::*', 'void (QObject::*)(int)', 'T...']
EXP = ['T()', 'nullptr', '0', '{}', '""', 'QString()', 'x9', '[](){}', 'sizeof(T)', 't', 't.foo()', 't->foo()', 'T::foo()', '*this', 'this', 'new T', '&T::foo', '&QObject::destroyed', 'QString("a")', 'u8"x"', '1.5', '(1,2)', 't[0]', 'args...', 'fwd()',
       'std::declval<Fwd>()', '-1', 'SIGNAL(a())', 'SIGNAL()', '"" ""', "'c'", 'noexcept(1)', '(int){3}', 'QString::fromLatin1("a")', 'foo<int>()', 'op9(1)', 'T{1}', 'static_cast<QObject*>(nullptr)', 'dynamic_cast<T*>(t)', '__func__', 'L"x"', 'R"(a)"']
# around an expression: the value stays, the syntax tree does not
WRAP = ['({0})', '[&]{{ return {0}; }}()', 'static_cast<decltype({0})>({0})', '((void)0, {0})', '(true ? {0} : {0})', '({{ {0}; }})', 'std::move({0})', 'id9({0})', '+{0}', 'W9<decltype({0})>{{{0}}}.v', 'W9<decltype({0})>{{{0}}}.get()', '(W9<decltype({0})>{{{0}}}.*pv9<decltype({0})>)', '*&{0}', '{{{0}}}',
        'decltype({0})({0})', '[p9={0}]{{ return p9; }}()', 'fun9<decltype({0})>()', '(*fp9<decltype({0})>)()', 'arr9<decltype({0})>[0]', 'var9<decltype({0})>', 'std::forward<decltype({0})>({0})', 'std::initializer_list<decltype({0})>{{{0}}}.begin()[0]', 'co9<0>({0})', 'decltype({0}){{}}', '(const decltype({0}) &)({0})', '*new auto({0})', 'dec9({0}, 0)', '{0}, {0}', '(0 ?: {0})']
PRE = 'template<typename X> X id9(X x) { return x; } template<typename X> struct W9 { X v; X get() const { return v; } operator X() const { return v; } }; template<typename X> X W9<X>::*pv9 = &W9<X>::v; template<typename X> X fun9(); template<typename X> X (*fp9)(); template<typename X> X arr9[3]; template<typename X> X var9; template<int I, typename X> auto co9(X &&x) { return static_cast<X &&>(x); } template<typename... X> auto dec9(X... x) { return (x, ...); }\ntemplate<int> struct N9; struct Fwd; Fwd &fwd(); template<typename A> struct D9 : A { using A::foo; };\n'
KW = ['&', '*', '->', '.', '::', '<', '>', '=', 'const', 'static', 'operator', 'this', 'template', 'typename', 'struct', '...', ',', '!', '~', 'new', 'delete', 'return', 'mutable', '= default', '= delete', 'override', 'final', '= 0', 'using', 'typedef', 'enum', 'union']
HEAD = ['template<typename T> ', 'template<typename... T> ', 'template<int T> ', 'template<typename T, template<typename> class TT> ', 'template<> ', 'inline ', 'static ', 'constexpr ', 'virtual ', 'friend ', 'extern "C" ', 'typedef ', 'const ', 'explicit ', '[[nodiscard]] ']

def flags(d): return ['-std=c++20', '-fPIC', '-w', '-ferror-limit=0', '-isystem', Q, '-isystem', Q + '/QtCore', '-isystem', Q + '/QtGui'] + (['-include-pch', f'{d}/core.pch'] if d else [])
def prepare(d):
    """precompiled Qt headers; False if there is no Qt"""
    if not Q: return False
    with open(f'{d}/core.h', 'w') as f:
        f.write(''.join(f'#if __has_include(<{m}/{i}>)\n#include <{m}/{i}>\n#endif\n' for i in INC for m in ('QtCore', 'QtGui')) + '#include <coroutine>\n#include <vector>\n#include <memory>\n')
    q = subprocess.run([build.CXX, '-x', 'c++-header'] + flags(None) + [f'{d}/core.h', '-o', f'{d}/core.pch'], capture_output=True, text=True)
    return q.returncode == 0
def inputs():
    """(check, text) of every test input"""
    T = []
    for f in sorted(glob.glob(build.REPO + '/tests/*/*.cpp')):
        if 'clang-tidy' in f: continue
        s = open(f, errors='replace').read()
        if len(s) > 12000: continue
        T.append((f.split('/')[-2], '\n'.join(l for l in s.split('\n') if not re.match(r'\s*#\s*(include|pragma)', l))))
    return T
def code_of(t): return [i for i, x in enumerate(t) if not x.isspace() and not x.startswith(('//', '/*', '#'))]
def mut(r, s, n=None):
    t = TOK.findall(s)
    code = code_of(t)
    if len(code) < 5: return s
    for _ in range(n or r.choice([1, 1, 1, 2, 3])):
        k = r.random(); i = r.choice(code)
        ids = [j for j in code if re.match(r'[A-Za-z_]', t[j])]
        def at(c, f):
            if c: j = r.choice(c); t[j] = f(j)
        if r.random() < .35: t = wrapexpr(r, t); code = code_of(t); continue
        if r.random() < .08: t = overload(r, t); code = code_of(t); continue
        if k < .15 and t[i] not in '{}': t[i] = ''
        elif k < .2: t[i] = t[i] + ' ' + t[i] if t[i] not in '{}' else t[i]
        elif k < .35 and ids: t[r.choice(ids)] = t[r.choice(ids)]
        elif k < .45: at([j for j in code if re.match(r'Q[A-Z]\w*$|int$|auto$|bool$|void$', t[j])], lambda j: r.choice(TYP))
        elif k < .6: at([j for j in code if t[j] in ';{'], lambda j: t[j] + ' ' + r.choice(STM) + ' ')
        elif k < .72: at([j for j in code if re.match(r'["\'\d]', t[j])] + [j for j in ids if r.random() < .15], lambda j: r.choice(EXP))
        elif k < .8:
            c = [j for j in code if t[j] == '(']
            if c:
                j = r.choice(c); d = 0
                for e in range(j, len(t)):
                    d += (t[e] == '(') - (t[e] == ')')
                    if d == 0: break
                if d == 0 and e - j < 60:
                    a = ''.join(t[j + 1:e])
                    t[j + 1:e] = [r.choice(['', a + ', ' + r.choice(EXP), r.choice(EXP), ', '.join(a.split(',')[1:]), ','.join(a.split(',')[:-1])])]
                    code = code_of(t)
        elif k < .9: at([j for j in code if t[j] in ('struct', 'class', 'void')], lambda j: r.choice(HEAD) + t[j])
        elif k < .95: t[i] = r.choice(KW)
        else:
            l = ''.join(t).split('\n'); a = r.randrange(len(l)); l.insert(r.randrange(len(l)), l[a]); t = TOK.findall('\n'.join(l)); code = code_of(t)
            if not code: break
    return ''.join(t)
def spans(t):
    """(from, to) of expressions: arguments, initializers, returned values, conditions"""
    out = []; st = []
    for j, x in enumerate(t):
        if x in ('(', '[', '{'): st.append([x, j, [j]])
        elif x in (')', ']', '}'):
            if not st: return out
            o, a, cs = st.pop()
            if o == '(' and x == ')':
                for b, c in zip(cs, cs[1:] + [j]): out.append((b + 1, c))
        elif x == ',' and st: st[-1][2].append(j)
        elif x in ('=', 'return', '<<', '?'):
            d = 0
            for e in range(j + 1, min(len(t), j + 120)):
                if t[e] in '([{' and len(t[e]) == 1: d += 1
                elif t[e] in ')]}' and len(t[e]) == 1: d -= 1
                if d < 0 or (d == 0 and t[e] in (';', ',', '<<', ':')): break
            out.append((j + 1, e))
    # what a . or -> is applied to
    for j, x in enumerate(t):
        if x in ('.', '->') and j and re.match(r'[A-Za-z_]\w*$', t[j - 1]): out.append((j - 1, j))
    return [(a, b) for a, b in out if 0 < b - a < 60 and ''.join(t[a:b]).strip() and not any(';' in y or y.startswith(('//', '#', '/*')) for y in t[a:b])]
def wrapexpr(r, t):
    c = spans(t)
    if not c: return t
    a, b = r.choice(c)
    return t[:a] + [r.choice(WRAP).format(''.join(t[a:b]).strip())] + t[b:]
def overload(r, t):
    """another function of the same name with odd parameters in front of one"""
    l = ''.join(t).split('\n')
    c = [(i, m) for i, x in enumerate(l) for m in [re.match(r'(\s*)((?:[\w:<>]+ )*[\w:<>]+[ *&]+)(\w+)\(.*\)(?: const)?(?: override)? *[;{]?\s*$', x)] if m and not re.match(r'\s*(return|else|new|delete|throw|emit)\b', x)]
    if not c: return t
    i, m = r.choice(c)
    ret = re.sub(r'\b(virtual|override|inline|explicit)\b', '', m[2]).strip()
    l.insert(i, m[1] + r.choice(['{0} {1}();', '{0} {1}(...);', 'template<typename T9> {0} {1}(T9);', 'template<typename... T9> {0} {1}(T9...);', '{0} {1}(Fwd &);', '{0} {1}(int = 0, Fwd * = nullptr);', 'static {0} {1}(void *, int);', 'template<int N> {0} {1}();', '{0} {1}(N9<0> *);', '{0} {1}(int (*)(int), int &&);']).format(ret, m[3]))
    return TOK.findall('\n'.join(l))
def balanced(s):
    st = []; m = {')': '(', '}': '{', ']': '['}
    for x in TOK.findall(s):
        if len(x) == 1 and x in '({[': st.append(x)
        elif x in m:
            if not st or st.pop() != m[x]: return False
    return not st
def wrap(r, n, s):
    k = r.random(); hd = f'namespace m{n} {{ '
    if k < .05: return hd + 'template<typename T> struct W9 { ' + s + '\n}; }'
    if k < .1: return hd + 'struct W9 { ' + s + '\n}; }'
    if k < .15: return hd + 'template<typename T, typename... Args> void w9(T t, Args... args) {' + s + '\n} }'
    return hd + s + '\n}'
def compiling(p, parts, d, rounds=5):
    """writes the parts that compile together to p; which ones"""
    alive = list(range(len(parts)))
    for _ in range(rounds):
        o = PRE; n = o.count('\n') + 1; span = []
        for i in alive:
            a = n; o += parts[i] + '\n'; n += parts[i].count('\n') + 1; span.append((a, n, i))
        with open(p, 'w', errors='replace') as f: f.write(o)
        try: q = subprocess.run([build.CXX, '-fsyntax-only', p] + flags(d), capture_output=True, text=True, errors='replace', timeout=120)
        except subprocess.TimeoutExpired: return []
        if q.returncode == 0: return alive
        e = [int(m) for m in re.findall(re.escape(p) + r':(\d+):\d+: (?:fatal )?error', q.stderr)]
        bad = {i for a, b, i in span for l in e if a <= l < b}
        alive = [i for i in alive if i not in bad]
        if not bad or not alive: return []
    return []
def mutants(r, base, per):
    parts = []
    for _ in range(20 * per):
        x = mut(r, r.choice(base)[1])
        if balanced(x): parts.append(wrap(r, len(parts), x))
        if len(parts) == per: break
    return parts
