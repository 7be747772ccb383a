struct QByteArray { bool isEmpty(); int toInt(bool *, int); }; QByteArray qgetenv(); void f() { qgetenv().isEmpty(); qgetenv().toInt(0, 0); }
