template <class T> struct QList { T &operator[](); T &operator[](int, int); T *b; T* begin(); T first(); T&last(); };
struct C { QList<int> l; QList<int> g(); int f() { return l[] + l[1,2] + g()[] + g()[2,3]; } };
