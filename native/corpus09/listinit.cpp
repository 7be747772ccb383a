class QString{ public: QString(const char*); QString(); }; template<class T> class QList { public: QList(); QList&operator<<(const T&); QList operator<<(const T&) const; QList &operator,(int); QList operator()(); QList operator()(int); }; class QStringList : public QList<QString>{ public: QStringList(); QStringList&operator<<(const QString&); QStringList& operator++(); QStringList& operator()(); };
struct M { QStringList a = QStringList() << "a"; QList<int> b = QList<int>() << 1; M():a(QStringList()<<"x"){} };
QStringList gg = QStringList() << "b"; void tk(QStringList, QStringList =QStringList() << "a"); void tr(const QStringList&);
void f(){ int a,b; struct{} s1,s2; using X=int; typedef int Y,Z2; static_assert(1); int *p = new int, q=1; { extern int zz; enum {E1}; } QStringList l = QStringList() << "a" << "b"; tk(QStringList() << "c"); tr(QStringList() << "d"); QStringList() << "e"; l << "f"; tk(++l); (QStringList() << "g"); l(); tk(l()); tr(l()); QList<int> k; k(); k(1); tr(QStringList()() ); QList<int> z = k(); QList<int> z2 = QList<int>()(); QList<int> z3 = QList<int>()(1); auto w = [y = QStringList() << "q"]{}; for(QStringList x = QStringList() << "a", y = QStringList()()  ;;); return; }
QStringList rr(){ return QStringList() << "x"; } QStringList rs(){ return QStringList()(); } QList<int> rt(){ QList<int> k; return k(); }
