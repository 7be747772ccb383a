template <class T> struct A { struct B; void f(B &b) { for (int i;;) { struct QForeachContainer { QForeachContainer(B &); }; QForeachContainer q(b); } } };
struct F; void f(F &b) { for (int i;;) { struct QForeachContainer { QForeachContainer(F &) {} }; QForeachContainer q(b); } }
