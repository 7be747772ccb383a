class QObject { public: 
template<class...A> static void connect(A...);
template<class A,class B,class C,class D,class E> static void connect(A,B,C,D,E=0);
template<class A,class B,class C> static void connect(A,B,C=0);
template<class A,class B> static void disconnect(A,B,int=0,int=0);
static void connect(...); static void connect(); static void connect(int,const char*,int=1); void sig(); void sig(int);
template<class A,class B,class C> static void cc(A,B,C); };
class QTimer: public QObject{ public: template<class...A> static void singleShot(A...); static void singleShot(); };
class QMenu : public QObject{ public: template<class...A> void addAction(A...); void addAction(); };
class QWidget : public QObject{ public: template<class...A> void addAction(A...); void addAction(); };
class QMessageBox { public: void open(); template<class...A> void open(A...);};
template<class...T> void g(T...t){ QObject::connect(t...); QObject::connect(); QObject::disconnect(t...); QTimer::singleShot(t...); QTimer::singleShot(); QMenu m; m.addAction(t...); m.addAction(); QWidget w; w.addAction(t...);}
void h(QObject*o,QMessageBox b){ g(o,&QObject::connect<int>,o); g(); QObject::connect(1,2,3,4); QObject::connect(1,2); QObject::connect(o,&QObject::cc<int,int,int>,[]{}); QObject::connect(o,(void (QObject::*)())&QObject::sig,o,(void (QObject::*)())&QObject::sig); QTimer::singleShot((void (QObject::*)())&QObject::sig);QMenu m; m.addAction((void (QObject::*)())&QObject::sig); b.open(); b.open(&QObject::cc<int,int,int>); }
