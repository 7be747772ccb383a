#define Q_UNUSED(x) (void)x;
#define Q_GLOBAL_STATIC(T,n) 
#define qDebug() 
namespace std { template<class T> struct initializer_list{ const T*b; unsigned long n; const T*begin() const; const T*end() const;}; }
class Poly { public: virtual void f(); Poly(const Poly&); Poly& operator=(const Poly&)=default; virtual Poly*cl(); int*p; ~Poly(); }; class Poly2 : public Poly{ }; struct { virtual void f(); } anon; template<class T> struct PT : T { virtual void f(); PT(){ f(); g(); this->f(); T::f(); [this]{ f(); }; } virtual void g(); ~PT(){ this->g(); } PT(const PT&); }; template<class T> struct PF final : T { virtual void f(); }; struct Inc; struct PG final : Poly { virtual void k(); };
PT<Poly> pt; static Poly gp(*(Poly*)0); static struct NPod { NPod(); ~NPod(); } np; static struct { Poly p{*(Poly*)0}; } anp; struct H { static NPod m; }; NPod H::m; template<class T> struct SG { static T t; }; template<class T> T SG<T>::t; 
void v(int a, Poly*b, int){ Q_UNUSED(a); Q_UNUSED(b) a=2; (void)b->p; Q_UNUSED(b->p) (void)sizeof(a); (void)(a); (void)v; (void)0; (void)"x"; (void)anon; (void)np; struct L{ int y; void m(int q){ (void)y; (void)this; (void)q; q++; (void)this->y; } }; [a]{ (void)a; }; auto l=[](auto z){ (void)z; z; }; l(1); (void)l; }
template<class T> void tv(T t){ (void)t; t; (void)t.x; (void)T(); (void)T::y; (void)t->z; }
void rv(){ return v(1,0,2); } void rv2(){ return (void)0; } void rv3(){ return void(); } auto rv4(){ return rv(); } template<class T> T rv5(){ return T(); } void rv6(){ return rv5<void>(); } struct RC{ RC(){ return rv(); } ~RC(){ return (void)1; } operator int(){ return 1; } }; auto rl=[]{ return rv(); }; 
struct QHashK{}; namespace NS { struct K{}; template<class T> struct KT{}; enum KE{}; unsigned qHash(const K&); unsigned qHash(KT<int>); unsigned qHash(KE); unsigned qHash(int); template<class T> unsigned qHash(T); } unsigned qHash(NS::K,int=0); unsigned qHash(NS::KT<int>&); template<class T> unsigned qHash(NS::KT<T>); template<class T> unsigned qHash(T*); unsigned qHash(NS::KE*); unsigned qHash(int(*)(int)); unsigned qHash(decltype(anon)); extern "C" unsigned qHash(int); struct HF { friend unsigned qHash(HF){ return 1; } friend unsigned qHash(NS::K,HF); }; void lq(){ unsigned qHash(NS::K,char); unsigned qHash(...); auto qHash2=[](NS::K){}; }
