class QObject{ public: virtual ~QObject(); void installEventFilter(QObject*); virtual bool eventFilter(QObject*,int); }; class F1; class F2; F1*a; F2*b; QObject*o; struct K : QObject { void installEventFilter(QObject*); }; 
void f(K*k){ o->installEventFilter((QObject*)a); o->installEventFilter(reinterpret_cast<QObject*>(b)); k->installEventFilter((QObject*)a); o->installEventFilter(nullptr); o->installEventFilter((QObject*)0); }
struct Z : QObject { void f(){ installEventFilter((QObject*)a); installEventFilter(this); this->installEventFilter((QObject*)b); } };
