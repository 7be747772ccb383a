class QByteArray { public: QByteArray(const char*); QByteArray(); operator const char*() const; const char*data() const; }; void g(const char*); QByteArray mk();
#define B1 mk()
#define B2(x) g(x)
#define B3 QByteArray("a")
#define B4(x) g(mk x)
#define B5 (
#define B6 )
#define B7(t,n) t n = mk();
#define B8(...) __VA_ARGS__
void f(QByteArray b){ g(B1); B2(mk()); g(B3); B4(()); g(mk B5 B6); g B5 mk() B6; B7(const char*, x) B8(g(b)); B8(g)(B8(b)); g(B8(mk)()); B2(B3); B2(B1); B2(B8(b)); const char*y = B8(b); const char*z = B8(QByteArray)("a"); g(QByteArray B5 "z" B6); const char *w{B3}; g((B3)); g(B8((B8(B3)))); }
