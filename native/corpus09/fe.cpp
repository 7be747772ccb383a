namespace Q{ template<class T> struct QForeachContainer { QForeachContainer(const T&t):c(t),i(0){} const T c; int i; }; }
template<class T> struct QForeachContainer { QForeachContainer(const T&t):c(t),i(0),control(1){} const T c; int* i; int control; };
template<class T> QForeachContainer<T> qMakeForeachContainer(T&&);
struct X { int*begin(); int*end(); int v; X&operator*(); };
struct I; struct U { U(const U&); U& find(int); I &it();};
template<class T> class QVector { public: T*begin(); T*end(); T&first(); T&operator[](int); QVector(); QVector(const QVector&); };
template<class T> class QList { public: T*begin(); T*end(); T&first(); QList(); T&operator[](int); };
#define Q_FOREACH(variable, container) for (QForeachContainer<decltype(container)> _container_((container)); _container_.control && _container_.i != _container_.c.end(); ++_container_.i, _container_.control ^= 1) for (variable = *_container_.i; _container_.control; _container_.control = 0)
#define foreach Q_FOREACH
template<class B> struct D : QVector<B> { void m(){ foreach(int i, *this) { this->first(); (void)i; } } };
template<class B> struct E2 : B { void m(){ B b; foreach(int i, b) { this->first(); b.first(); (void)i; } foreach(int i, *this){} } };
void f(QVector<int> v, QList<X> l, X*x){ foreach(int i, v){ v.first(); (void)i;} foreach(const X &y, l){ l.first(); l[0]; (void)y;} for(int*i=v.begin(), *j=v.end();i!=j;){} foreach(X y, l){ y.v; if(1) {} else ; for(;;){} if(y.v) return; while(1); l.begin()->begin(); ({ ; }); } D<int> d; d.m(); struct L: QVector<int>{ void z(){ foreach(int i, *this) { first(); (void)i;} } }; foreach(int i, QVector<int>()) for(;;) v.first(); 
 for (QForeachContainer<QVector<int>> c((v)); c.control;) ; for (QForeachContainer<QVector<int>> c((v)); c.control;) for(;;) { v.first(); }
 for (QForeachContainer<QVector<int>> c((v)); c.control;) for(int a,b;;) { v.first(); }
 for (QForeachContainer<QVector<int>> c((v)); c.control;) for(int a[3];;) { v.first(); int p,q; }
 for (QForeachContainer<QVector<int>> c((v)); c.control;) for(int a=3;auto q=4;) { v.first(); int p,q; }
 for (QForeachContainer<QVector<I*>> c((QVector<I*>())); c.control;) for(I*&a=*c.i[0].c;;) { v.first(); int p,q; }
}
