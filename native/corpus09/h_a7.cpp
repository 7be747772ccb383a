class QObject{ public: virtual ~QObject(); }; class F1; class F2; template<class T,class U> T qobject_cast(U u); template<class T> class QPointer{}; F1*a; F2*b; QObject*o;
void f(){ qobject_cast<F1*>(b); qobject_cast<F2*>(b); qobject_cast<QObject*>(a); qobject_cast<F1*>(o); qobject_cast<const QObject*>(a); qobject_cast<int>(3); qobject_cast<F1*>(a); qobject_cast<QObject>(o); qobject_cast<QObject*>(nullptr); qobject_cast<void*>(o); static_cast<F1*>((void*)a); (F1*)b; reinterpret_cast<F1*>(b); }
template<class T> void g(T t){ qobject_cast<T>(t); qobject_cast<QObject*>(t); dynamic_cast<T>(o); static_cast<T*>(t); dynamic_cast<QObject*>(t); }
class Q2 : public QObject { public: void installEventFilter(QObject*); }; 
