template <class T> struct A { T t; struct In { T t; };  template<class U, class V> struct QList {};template<class V> struct QList<In, V> {}; };
