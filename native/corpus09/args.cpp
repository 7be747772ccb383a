struct F; struct Big{ int a[100]; Big(); Big(const Big&); ~Big(); void nc(); int c() const; }; struct Sm{int a;}; template<class T> struct Tm { T t[100]; Tm(const Tm&); }; template<class T> struct Un;
void a1(const F&); void a2(F); void a3(const Un<int>&); void a4(Un<int>); void a5(const Big&b){ b.c(); } void a6(Big b){ } void a7(const Big b){} void a8(Sm s){} void a9(const Sm&s){} void a10(const Sm&&s){} void a11(const int&i){} void a12(Tm<int> t){} void a13(const Tm<int>&t){} template<class T> void a14(Tm<T> t){} template<class T> void a15(const T&t){} template<class T> void a16(T t){} void z(){ a14(*(Tm<int>*)0); a15(Big()); a16(Big()); a15(3); }
struct S { S(const Big b):x(b){} S(Sm s); Big x; void m(const Sm&s) const; virtual void v(const Sm&s); friend void fr(const Sm&s){} void operator()(const Sm&s){} Sm operator+(const Sm&) { return Sm(); } operator int(){return 1;} template<class T> void tm(const T&t,const Sm&s){} }; struct S2 : S { using S::S; void v(const Sm&s) override {} S2(const Sm &s, int=0); }; S2::S2(const Sm&s,int):S(s){} void S::m(const Sm&s) const {}
void q(){ auto l=[](const Sm&s){}; l(Sm()); auto g=[](const auto&s, auto b){}; g(1,2); g(Sm(),Big()); S2 s(Sm{}); S2 t(Big{}); s.tm(1,Sm()); for(Big b: *(Big(*)[3])0){} for (const Big b: *(Big(*)[3])0){} for(auto b : *(Big(*)[3])0){} for(const Sm&s:*(Sm(*)[3])0){} for(auto&&b: *(Big(*)[3])0){} }
struct R { void rec(const R&r){} void rec2(R r){} struct In { void m(const R&r){} void m2(R r){} Sm k; }; R(const R&,int); F*f(const F&f); }; void fp(void(*)(const Sm&)); template<> void a15(const Sm&s){} extern "C" void ec(const Sm&s){} void del(const Sm&)=delete; void arr(const Sm(&x)[3]){} void ini(const Sm&s = Sm()){} void fwd(F&f){ } template<class T> struct QQ{ void m(const Sm&s, T t, const T&r){ for(const T x: *(T(*)[3])0){} for(T x: r){} for(const F&f : *(F**)t){} } }; template struct QQ<Big>;
void big(F*f){ F&g=*f; for(auto &x: *(F*(*)[2])f) (void)x; new Sm; new Sm(); auto p = new Big; Sm *s=new Sm; Sm*s2=new Sm(); int*i = new int; Sm*sa=new Sm[3]; static Sm*ss=new Sm; const Sm*cs=new Sm; auto tp=new Tm<int>(*(Tm<int>*)0); (void)p;(void)s;}
template<class T> void heap(){ T*t=new T; T*u=new T(); auto v=new T; Tm<T>*w=new Tm<T>(*w); struct L{T t;}; L*l = new L; (void)t; } 
