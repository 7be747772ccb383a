template<class T> struct QList { T *b; T* begin(); T*end(); T first(); QList(); QList(const QList&); ~QList(); void append(T);};
template <typename T> class QForeachContainer { public: QForeachContainer(const T &t) : c(t) {} T c; int *i; int *e; int control = 1; };
#define Q_FOREACH(variable, container) for (QForeachContainer<QList<int>> _container_(container); _container_.control && _container_.i != _container_.e; ++_container_.i, _container_.control ^= 1) for (variable = *(int*)0; _container_.control; _container_.control = 0)
#define NF(variable, container) for (QForeachContainer<QList<int>> _container_(container); _container_.control && _container_.i != _container_.e; ++_container_.i, _container_.control ^= 1) 
struct Fwd;
void f(QList<int> l) {
  Q_FOREACH(int x, l) { for (int a = 0, b = 3; a < b; ++a) { (void)x; l.append(a); } }
  NF(int x, l) { for (int a = 0, b = 3; a < b; ++a) {  l.append(a); } }
}
template <class T> struct QQ { template<class U> struct QForeachContainer { QForeachContainer(U t); }; };
template <class T> void g(T t, Fwd*q) {
  QList<int> l; Q_FOREACH(int x, l) { l.append(x); t.foo(); t.T::foo(); }
}
struct C0 { struct N { operator int(); } ; static QList<int> s; QList<int> m; void k() { Q_FOREACH(int x, m) { this->m.append(x); }  
 Q_FOREACH (auto v, s) { [&] { s.append(v); }(); } NF(auto p, s) for (Fwd *w;;) {} NF(auto p, s) for (Fwd &w = *(Fwd*)0;;) {}  NF(auto p, s) for (;;) { int a, b; struct LL; LL*q;  (void)q; } NF(auto p, s) for (;;) {   using T = int; } } };
template <class T> struct Dep { struct In { T t[40]; }; void k(QList<int> s, T t) { NF(auto p, s) for (T w;;) {} NF(int p,s) for(const In i{};;) {}  NF(int p,s) for(const Dep *i,&w=*this;;) { const T zz = t; } NF(int p,s) for(;;) { const Dep zz = *this; } NF(int p,s) for(;;) { decltype(t+1) zz = t; } 
 for (const T w = t;;) { QForeachContainer<QList<int>> rr(s);  } 
 auto lam = [](auto x) { QList<int> s; NF(int p,s) for(;;) { const decltype(x) zz = x; } }; lam(3);
 } };
void inst() { Dep<int> d; d.k(QList<int>(), 3); }
