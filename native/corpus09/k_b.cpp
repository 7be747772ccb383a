template<class T> struct QList { T *b; T* begin(); T*end(); T first(); QList(); QList(const QList&); ~QList(); void append(T);};
template <typename T> class QForeachContainer { public: QForeachContainer(const T &t) : c(t) {} T c; int *i; int *e; int control = 1; };
template <class T> void k(QList<int> s, T t) { 
for (QForeachContainer<QList<int>> cc(s);;) for (const T w = t;;) {}  }
