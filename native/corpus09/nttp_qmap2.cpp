template<class T,int N> class QMap { public: T* begin(); void toVariantMap(); };
template<int N> class QList { public: int x; void append(int); int* begin(); };
QMap<int,4096> m; QList<77> h;
void f(){ h.append(1); h.append(2); m.toVariantMap(); for(int*i=h.begin();;){} QList<76> *p=&reinterpret_cast<QList<76>&>(h); p->append(3);}
