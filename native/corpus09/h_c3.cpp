class QByteArray { public: QByteArray(const char*); QByteArray(); operator const char *() const; const char*data() const; }; void g(const char*); 
#define B3 QByteArray("a")
#define B5 (
#define B6 )
#define B8(...) __VA_ARGS__
#define QByteArrayLiteral(x) QByteArray(x)
#define CALL(x) g(QByteArray(x))
#define CALL2(x) g(x)
#define H(x) QByteArray(#x)
#define J(x) QByteArray("a" x
void f(){ g(B3); g(QByteArrayLiteral("x")); CALL("a"); CALL2(QByteArray("q")); CALL2(B3); const char*p = QByteArray("a"); const char*q = B3; g(B8(QByteArray)("a")); g(QByteArray B5 "a" B6); g(QByteArray(B8("a"))); g(H(a)); g(J("x")); g(J("x")B6); g(QByteArray B5 "a" ); 
 g(QByteArray("a"
)); g((QByteArray)"a"); g(QByteArray{"a"}); const char*r{QByteArray("a")}; const char *s = true ? QByteArray("a") : "b"; }
#define WHOLE(n) void fn_##n() { g(QByteArray(#n)); g(QByteArray("x")); const char*z = QByteArray("y"); }
WHOLE(a)
#define FF g(QByteArray("x"));
void k(){ FF }
