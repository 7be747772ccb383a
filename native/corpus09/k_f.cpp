template<class T> struct QList { T *b; T* begin() const; T*end() const; QList(); QList(const QList&); ~QList(); void append(T);};
template <class T> void k(QList<int> s, T t) { for (const T x : s) {}  for (T x : s) {} }
