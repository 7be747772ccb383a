#define Q_OBJECT
class QObject{public: virtual ~QObject(); virtual bool eventFilter(QObject*,void*); void installEventFilter(QObject*); virtual void ev(); void nonv();}; class QFwd; template<class T> class QT2 : public QObject{}; template<class T> class QDep : public T { public: void s(); void s(int); void ev() override; QDep(){ this->ev(); T::ev(); QObject::ev(); } void installEventFilter(QObject*);};
#define signals public
class A : public QObject { Q_OBJECT signals: void s(); void s(int); void ev() override; public: A(); }; class B: public A { signals: void s(); void s(int); public: B(){ QObject::ev(); A::ev(); this->QObject::ev(); ev(); ::QObject::ev(); } ~B(){ ev(); } void ev() override { QObject::ev(); } void nonv(){ QObject::nonv(); } };
template<class T> class TT : public QT2<T>, public T { void ev() { QObject::ev(); QT2<T>::ev(); T::ev(); this->QObject::ev(); } void s(); void k(QFwd*f, TT*t, QDep<T>*d, QObject*o){ o->installEventFilter(this); o->installEventFilter(t); o->installEventFilter(d); o->installEventFilter((QObject*)f); o->installEventFilter(o); d->installEventFilter(t);} };
void f(A*a,B*b,QFwd*w, QDep<A>*d){ a->installEventFilter(b); a->installEventFilter((A*)w); a->installEventFilter(d); a->installEventFilter(0); a->installEventFilter(new B); a->installEventFilter((A*)(void*)0); struct L: QObject { void z(QObject*o) { o->installEventFilter(this); } }; [&]{ a->installEventFilter(b); }; }
class Multi : public QObject, public QDep<A> { void ev(){ QObject::ev(); } }; class Rec; class Rec : public QT2<Rec> { Rec*r; void s(Rec); void s(Rec&); Rec(const Rec&); }; class Virt : virtual public A { void s(){ QObject::nonv(); QObject::ev(); } };
template<class...Bs> struct Pk : Bs... { using Bs::ev...; void m(){ QObject::ev(); } }; Pk<A> pk; template<> class QDep<int>; class QQQ { QDep<int>*x; void f(QObject*o){ o->installEventFilter((QObject*)x); } };
