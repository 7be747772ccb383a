template<class T> class QList { public: T& first(); const T& first() const; const T& constFirst() const; T*begin(); T*end(); const T*cbegin()const; T& operator[](int); T& operator()(int); T& operator*(); const T& at(int)const; T*find(int); QList mid(); };
template<class K,class V> class QMap { public: V& operator[](const K&); V*find(K); V*begin(); K&first(); V*insert(K,V);};
class QString { public: QString(); QString(const char*); char& operator[](int); char*begin(); char*data(); };
void va(int,...); void va2(...); template<class...A> void vt(A&&...); void r1(int&); void r2(int*); template<class T> void r3(T); void rs(QString); void rs2(const QString&); enum En{e}; void re(En); struct St{int x;}; void rst(St); void rst2(const St&); union Un{int a;}; void ru(Un);
class QX { public: QList<int> l; QList<En> le; QList<St> ls; QList<QString> lq; QList<int*> lp; QList<Un> lu; QList<int(*)()> lf; QMap<int,int> m; QMap<int,St> ms; int mem(); 
 void f(){ l.first(); va(1,l.first()); va(1, ls.first()); va2(ls.first()); va(1, l[0]); va2(ls[0]); vt(ls.first()); vt(ls[0], ls.first(), l.first()); r1(l.first()); r2(l.begin()); r3(l.first()); r3(ls.first()); rst(ls.first()); rst2(ls.first()); rs(lq.first()); rs2(lq.first()); rs(lq[0]); re(le.first()); re(le[0]); rst(ls[0]); ru(lu.first()); ru(lu[0]); (*lf.begin())(); lf.first()(); lf[0](); m[1]; m.first(); rst(ms[0]); rst2(ms[1]); va(1, ms[2]); *l; l(0); r1(*l); St s = ls.first(); St s2(ls.first()); s = ls.first(); s= ls[0]; vt(*ls); va(0, *ls); l.operator[](0); va(1,l.operator[](0)); ls.operator*(); rst(ls.operator*()); l.mid().first(); l.mid()[0]; l.mid().begin(); l.mid()(0); *l.mid(); va(0,l.mid().first()); m.begin(); m.find(1); ls.find(1);} };
QList<int> mk(); QMap<int,int> mm(); QList<int>&rf(); QList<St> mks();
void f(){ mk().first(); mk()[0]; *mk(); mk()(1); mk().begin(); mm()[1]; mm().insert(1,2); mm().first(); mm().find(1); mks()[0]; va(1,mks()[0]); rst(mks().first()); mk().operator[](0); QString()[0]; QString().begin(); QString("a").data(); for(auto&x: mk()) (void)x; mk().find(2); (&rf())->first(); }
template<class T> void td(T t){ t.first(); t[0]; QList<T>().first(); QList<T>()[0]; va(1,QList<T>().first()); QList<int> q; q[t]; q.first(t); QList<int>().first(t);  }
void inst(){ td(QList<int>()); }
