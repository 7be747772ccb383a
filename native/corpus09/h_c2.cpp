struct A{int a,b; void operator==(const A&) const { return; } }; struct B{int a,b; bool operator==(const B&o) const { ; return a==o.a; } }; struct C {int a; bool operator==(const C&) const { return {}; } bool operator==(int) const {} bool operator<(const C&) const try { return true; } catch(...) { return false; } void operator!=(int) const { if(a); return; } }; bool operator==(A,B){ return 1; } template<class T> struct D{ T a,b; bool operator==(const D&o) const { return a==o.a && b==o.b; } void operator!=(const D&o) const { return; } };
void f(A a,B b,C c,D<int> d){ a==a; b==b; c==c; c==1; c<c; d==d; d!=d; a==b; c!=1; } template<class T> void g(T t, D<T> d){ d==d; d!=d; t==t; } void h(){ g(1,D<int>()); }
