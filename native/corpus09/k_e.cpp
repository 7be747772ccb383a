template <class T> struct A { T t; struct In { T t; };  void f() { auto *x = new A; auto *y = new In; In*z = new In(); A *w = new A(); } };
