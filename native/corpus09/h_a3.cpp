struct A{int a,b; void operator==(const A&) const { return; } }; struct B{int a,b; bool operator==(const B&o) const { ; return a==o.a; } }; struct C {int a; bool operator==(const C&) const { return {}; } bool operator==(int) const {} bool operator<(const C&) const try { return true; } catch(...) { return false; } }; bool operator==(A,B){ return; } template<class T> struct D{ T a,b; bool operator==(const D&o) const { return a==o.a && b==o.b; } bool operator!=(const D&o) const { return; } };
