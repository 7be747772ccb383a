template<int N, class T> class QMap { public: struct iterator{}; iterator begin(); };
template<int N, class T> class QHash { public: int x; };
template<class A, int N> class QPair{};
QMap<4096,int> m; QHash<4096,int> h;
void f(){ QMap<12345,int> a; QHash<7,int> b; (void)a;(void)b; a.begin();}
