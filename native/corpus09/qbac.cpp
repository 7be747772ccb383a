class QByteArray { public: QByteArray(const char*); QByteArray(const char*,int); operator const char*() const; const char*data() const; const char*constData() const; char*data(); };
#define QBA(x) QByteArray(x)
#define EMPTY
#define STR "abc"
#define CONV(x) (const char*)(x)
void g(const char*); QByteArray mk(); 
void f(QByteArray b){ g(b); g(mk()); g(QByteArray("a")); g(QBA("a")); const char*p = b; p = mk(); g(QByteArray(STR)); g(EMPTY b); g(CONV(b)); g(EMPTY QBA(STR)EMPTY); QByteArray k{"x"}; g(k); g(QByteArray{"x"}); g({b}); g(b.operator const char*()); const char*c = QByteArray("aa", 2); auto z=[&](const char*){}; z(b); }
const char*gl = QByteArray("x"); struct S{ const char*p = QByteArray("x"); S():p(QBA("z")){} }; const char*r(QByteArray b){ return b; } 
#define FULL(b) g(b)
#define DEF(n) void fn_##n(QByteArray b) { g(b); const char*x=b; g(QByteArray(#n)); }
DEF(abc) void h(QByteArray b){ FULL(b); FULL(QByteArray(STR)); } template<class T> void tt(T t){ g(t); } void hh(){ tt(mk()); }
