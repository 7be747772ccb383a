struct QByteArray { operator const char *() const; QByteArray(const char *); QByteArray(); };
void h(const char *);
#define H h(QByteArray
void f() { H("foo")); }
