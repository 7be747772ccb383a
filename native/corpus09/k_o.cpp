#define SIGNAL(a) "2"#a
#define SLOT(a) "2"#a
struct QObject { static int connect(QObject *, const char *, const char *, int); int foo; };
struct X : QObject { void sig(); };
void f(X *q) { QObject::connect(q, SIGNAL(sig()), SLOT(sig()), 1); }
void g() { QObject::connect(nullptr, SIGNAL(sig()), SLOT(sig()), 1); }
