template<class T> struct QVector { typedef T* iterator; typedef const T* const_iterator; iterator begin(); const_iterator cbegin() const; static iterator inst(); };
QVector<int> v;
QVector<int>::const_iterator it = v.begin();
QVector<int>::const_iterator it2 = QVector<int>::inst();
struct M { QVector<int>::const_iterator i3 = v.begin(); static inline QVector<int>::const_iterator it4 = v.begin(); M(QVector<int>::const_iterator x = v.begin()) : i5(v.begin()) {} QVector<int>::const_iterator i5; };
