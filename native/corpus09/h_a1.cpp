struct Poly{ virtual void f(); }; template<class T> struct PF final : T { virtual void f(); PF(const PF&); PF& operator=(const PF&); }; template<class T> struct PF2 final : PF<T> { virtual void f(); PF2(const PF2&); PF2& operator=(const PF2&); };
