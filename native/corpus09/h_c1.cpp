template<class T> class QVector { public: typedef T* iterator; typedef const T* const_iterator; iterator begin(); const_iterator begin() const; const_iterator cbegin() const; const_iterator constBegin() const; iterator end(); const_iterator end() const; const_iterator constEnd() const; T&first(); T&operator[](int); const T& at(int) const; };
void q(int*,int*); template<class I> void qSort(I,I); void va(int*,...); void qc(const int*,const int*);
class A { QVector<int> m; void f(){ q(m.begin(), m.end()); qSort(m.begin(), m.end()); va(m.begin()); va(m.begin(),1); qc(m.begin(),m.end()); int*x = m.begin(); } };
