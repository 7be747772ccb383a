template<class T> class QList { public: int size() const; int count() const; int count(int)const; int length() const; int indexOf(int)const; }; class QString{ public: int size() const; int count() const; int length() const;}; typedef int (QList<int>::*P)()const; typedef int (QString::*PS)() const;
bool g(bool); 
struct Z { QList<int> l; bool b = l.size(); int c = l.size() == 0; Z(): b(l.size()){} bool k[2]={(bool)l.count(),(bool)l.size()}; };
bool gb = QList<int>().size(); bool gc = QList<int>().size() > 0; bool ga[] = { (bool)QList<int>().size(), QList<int>().count() > 0 };
void f(QList<int> l, P p, QString s, PS ps, QList<int>*q){ if((l.*p)()==0); if((l.*p)()) ; if ((q->*p)() > 0); if((s.*ps)()); if((s.*ps)()==0); if(!l.size()); g(l.size()); g(l.size()>0); bool b = l.size(); bool c{(bool)l.size()}; while(l.count()); for(;l.size();); auto k=[x = (bool)l.size()]{}; (void)b;(void)c; do{}while(l.size()); l.size() ? 1:2; if(0 == l.size()); if(l.count(1)); if (l.indexOf(3) == -1); g(static_cast<bool>(l.size())); } void d(bool b = QList<int>().size(), bool c = QList<int>().size() > 0);
template<bool B> struct T1{}; 
