template<class T,long N> struct QMap { int value(); };
template<class T,class N> struct QHash { int value(); };
void f(QMap<int,4096> m) { m.value(); }
void f(QHash<int,bool> m) { m.value(); }
