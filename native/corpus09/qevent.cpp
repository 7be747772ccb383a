class QEvent { public: enum Type { None=0, MouseButtonPress=2, User=1000, Foo=12345, Neg=-4, MaxUser=65535 }; Type type() const; virtual ~QEvent(); }; class QMouseEvent: public QEvent{}; class QKeyEvent : public QEvent{}; class QWheelEvent: public QEvent{}; 
void f(QEvent*e){ switch(e->type()){ case QEvent::Foo: static_cast<QMouseEvent*>(e); break; case QEvent::Neg: static_cast<QKeyEvent*>(e); case QEvent::User: static_cast<QMouseEvent*>(e); default: static_cast<QMouseEvent*>(e);} if (e->type() == QEvent::Foo) { static_cast<QMouseEvent*>(e);} else if (e->type()==QEvent::Neg) { (QKeyEvent*)e; static_cast<QKeyEvent*>(e);} if (e->type() == (QEvent::Type)(3)) static_cast<QKeyEvent*>(e); if (e->type() == 7 || e->type()==QEvent::Foo) static_cast<QKeyEvent*>(e); }
