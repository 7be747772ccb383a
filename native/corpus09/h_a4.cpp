template<class T> class QVector { public: void append(); void push_back(); void append(T); void push_back(T); QVector&operator<<(T); QVector& operator+=(T); void insert(int); void insert(); void reserve(int); void prepend(); T* begin(); T*end(); void push_front(); void add(); }; template<class T> class QList : public QVector<T>{ public: void append(); };
template<class T> class QMap { public: void insert(); void insertMulti(); };
void f(){ QVector<int> v; for(int i=0;i<10;++i) v.append(); for(int i=0;i<10;++i) v.push_back(); QList<int> l; for(int i=0;i<10;++i) l.append(); for(int i: v) l.append(); for(int i=0;i<10;++i) l << i; for(int i=0;i<4;++i) { (l.*(void (QList<int>::*)())0)(); v.insert(); } } template<class T> void g(T t){ QVector<T> v; for(int i=0;i<10;++i) v.append(t); for(int i=0;i<10;++i) v.append(t,t); for (int i=0;i<4;++i) QVector<int>().append(1); QVector<int> w; for(int i=0;i<3;++i) w.append(t); for (auto x: t) { w.append(x); w << x; v.append(); } }
