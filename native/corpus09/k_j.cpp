struct QObject { template<class T> T qobject_cast(); };
struct F; struct G {};
template<class T, class U> T qobject_cast(U *);
template<class T> T qobject_cast(struct F*);
void f(F*f) { qobject_cast<G *>(f); }
template<class T> struct A { struct B; struct C : B, G {}; struct D : QObject {}; void f(C *c) { qobject_cast<G*>(c); qobject_cast<D*>(c); qobject_cast<D*>((B*)0); static_cast<G*>(c); dynamic_cast<G*>(c);  dynamic_cast<B*>(c); } };
