template<int N> class QList { public: int y; void append(int); }; template<int N> class QVector { public: int z;}; template<int N> class QSet{};
template<typename T> class QTypeInfo{};
void f(){ QList<12345> l; QVector<4444> v; l.append(3); (void)v;} struct S{ QList<5> a; QVector<7> b; };
