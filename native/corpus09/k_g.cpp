template <class T> struct A { struct B; void f(B &b) { for (int x : b) {} } };
