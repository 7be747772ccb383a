template<class T> struct QList { struct iterator { T *p; }; struct const_iterator { const_iterator(iterator); }; void insert(const_iterator); void erase(const const_iterator&); };
void f(QList<int> &l, QList<int>::iterator i) { void (QList<int>::*p)(QList<int>::const_iterator) = &QList<int>::insert; (l.*p)(i); void (QList<int>::*q)(const QList<int>::const_iterator&) = &QList<int>::erase; (l.*q)(i); (l.*q)({i}); }
