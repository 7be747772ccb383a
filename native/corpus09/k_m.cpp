struct QObject { static int connect(QObject*, int, int = 0); }; template<class T> void f(T t) { QObject::connect(t, 1); QObject::connect(t);  }
