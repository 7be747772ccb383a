template<class T> class QVector { public: typedef T* iterator; typedef const T* const_iterator; iterator begin(); const_iterator cbegin() const; const_iterator constBegin() const; iterator end();}; template<class T> class QList { public: class const_iterator; class iterator { public: operator const_iterator() const; bool operator==(const iterator&) const; bool operator==(const const_iterator&)const; iterator&operator++(); int operator()(); bool operator!(); bool operator<(int); }; class const_iterator { public: const_iterator(); const_iterator(const iterator&); int operator*(); bool operator==(const const_iterator&) const; int operator()(); const_iterator& operator=(const iterator&);}; iterator begin(); const_iterator end() const; };
template<class T> using Al = T*; typedef QVector<int>::iterator G; 
void f(QVector<int> v, QList<int> l){ QVector<int>::const_iterator i = v.begin(); i = v.end(); const int*p = v.begin(); QVector<int>::const_iterator j = static_cast<int*>(0); Al<const int> k = v.begin(); G g = v.begin(); const int* q = g; QList<int>::const_iterator x = l.begin(); x = l.begin(); l.begin()(); x(); !l.begin(); l.begin()==l.end(); struct{ typedef int*iterator; typedef const int* const_iterator; iterator b(); } an; decltype(an)::const_iterator y = an.b(); void (*fp)(const int*) = 0; fp(v.begin()); const auto z = [](QVector<int>::const_iterator){}; z(v.begin()); (void)(const int*)v.begin(); }
template<class C> void t(C c){ typename C::const_iterator i = c.begin(); i == c.end(); } void u(QVector<int> v){t(v);} namespace N { typedef int *iterator; typedef const int* const_iterator; iterator a(); const_iterator b = a(); } typedef int*iterator; typedef const int* const_iterator; iterator aa(); const_iterator bb = aa(); const int* cc = aa();
