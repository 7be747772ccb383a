template<class T> struct QForeachContainer { QForeachContainer(const T &); };
struct QList { int *b; int &first(); QList &operator[](int); 
 void k(QList l) { for (QForeachContainer<QList> c(l);;) { first(); } } 
 static QList *inst(); QList &me();
 void m(QList l) { for (QForeachContainer<QList> c(l);;) { inst()->first(); me().first(); (*this).first(); QList().first(); QList::first(); } } };
