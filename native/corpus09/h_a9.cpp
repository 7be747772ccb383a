#define SIGNAL(x) #x
#define SLOT(x) #x
class QObject{ public: virtual ~QObject(); static bool connect(const QObject*,const char*,const QObject*,const char*,int=0); bool connect(const QObject*,const char*,const char*,int=0) const; bool disconnect(const char*,const QObject*,const char*); static bool disconnect(const QObject*,const char*,const QObject*,const char*); void s(int); void t(); void u(int,int);}; class QTimer : public QObject { public: static void singleShot(int,const QObject*,const char*); void timeout(); }; class QMessageBox { public: void open(QObject*,const char*); }; class QSignalMapper; class QMenu { public: void addAction(const char*,const QObject*,const char*); }; class QSignalSpy { public: QSignalSpy(const QObject*,const char*); };
template<class T> class QPointer { public: operator T*() const; T*data() const; }; class QFwd; QFwd*fw; QPointer<QObject> qp; 
struct A : QObject { void f(QObject*o,const char*m){ connect(o,SLOT(s(int)),this,SLOT(t())); connect(o,SLOT(t()),this,SIGNAL(s(int))); connect(o,SIGNAL(s(int)),SLOT(u(int,int))); connect(o,m,this,SLOT(t())); connect(o,m,SLOT(t())); connect(o,SIGNAL(),this,SLOT()); connect(o,SIGNAL(x()),this,SLOT(s(int))); connect(o,SIGNAL(s(int)),qp,SLOT(u(int,int))); connect(qp,SIGNAL(s(int)),qp,SLOT(t())); disconnect(0,0,0,0); disconnect(o,SIGNAL(s(int)),0,0); disconnect(SIGNAL(s(int)),this,SLOT(t())); disconnect(m,this,SLOT(u(int,int))); connect(0,SIGNAL(s(int)),0,SLOT(t())); connect((QObject*)fw,SIGNAL(s(int)),this,SLOT(t())); QTimer::singleShot(0,this,SLOT(t())); QTimer::singleShot(0,this,SLOT(u(int,int))); QTimer::singleShot(0,this,SIGNAL(s(int))); QMessageBox().open(this,SLOT(s(int))); QMenu().addAction("x",this,SLOT(u(int,int))); QSignalSpy(this,SIGNAL(s(int))); QSignalSpy sp(this,SLOT(u(int,int))); connect(o,SIGNAL(s(int)),(const QObject*)(0),SLOT(t())); [=]{ connect(o,SIGNAL(s(int)),this,SLOT(t())); }; connect(o,SIGNAL(s(int)),[]{ return new QObject; }(),SLOT(t())); connect(o,"1s(int)",this,"2t()"); } };
template<class T> void g(T t,QObject*o){ QObject::connect(t,SIGNAL(s(int)),o,SLOT(t())); QObject::connect(t,SLOT(s(int)),t,SLOT(t())); o->connect(t,SIGNAL(s(int)),SLOT(t())); QObject::connect(o,SIGNAL(s(int)),t->x(),SLOT(t())); struct L : T { void m(){ QObject::connect(this,SIGNAL(s(int)),this,SLOT(t())); } }; } void nonmember(QObject*o){ o->connect(o,SIGNAL(s(int)),SLOT(t())); QObject::connect(o,SIGNAL(s(int)),o,SLOT(u(int,int))); }
#define CN connect(o,SIGNAL(s(int)),this,SLOT(t()))
#define MS(x) SIGNAL(x)
struct B : A { void k(QObject*o){ CN; connect(o,MS(s(int)),this,SLOT(t())); connect(o,SIGNAL(s(int)),this,MS(t())); disconnect(MS(s(int)),o,SLOT(t())); connect(o, "x" SIGNAL(s(int)), this, SLOT(t()));} };
