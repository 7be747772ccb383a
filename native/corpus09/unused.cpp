struct S { int c() const; int d(); S e() const; bool operator==(int) const; operator bool() const; S*p() const;}; 
int gi = S().c(); struct T { int a = S().c(); T(): a(S().c()){} int b[2]={S().c(),S().c()}; }; void df(int = S().c());
template<class X> struct TT { int a = X().c(); void m(){ X().c(); S().c(); this->q().c(); } S q() const; }; TT<S> tts; void z(){ tts.m(); }
enum En{ A= sizeof(S().c()) }; int arr[sizeof(S().c())]; static_assert(sizeof(S().c()),""); using U = decltype(S().c()); auto tr() -> decltype(S().c()); template<int N=sizeof(S().c())> struct NN{}; struct BF { int x: sizeof(S().c()); alignas(sizeof(S().c())) int y; }; void ne() noexcept(noexcept(S().c()));
void f(S s){ s.c(); if(s.c()); for(s.c();s.c();s.c()); for(auto x: {s.c()}); switch(s.c()){case 1: s.c(); default: s.c();} while(s.c()) s.c(); do s.c(); while(s.c()); try { s.c(); } catch(...) { s.c(); } auto l=[&]{ s.c(); }; auto m=[k=s.c()]{return k;}; lab: s.c(); co: (void)s.c(); s.e().c(); typeof(s.c()) t; int vla[s.c()]; using V=decltype(s.c()); if(s); if(s==1); struct { int q = S().c(); } loc; auto [a]=loc; __builtin_choose_expr(1,s.c(),2); goto lab; _Static_assert(1,""); ({ s.c(); }); s.c(), s.c(); }
