enum class E{A=1,B=2,C=4,D=8,E=17,F=32,G=3}; enum E2{}; enum E3:int; enum E4{X}; enum E5{ a1=1,b1=2,c1=3,d1=8}; enum E6 : unsigned __int128 {q=1,w=2,e=4,r=(unsigned __int128)1<<100,t=5}; template<int N> struct T { enum EE { A=N, B=N*2, C=4,D=8,E=9}; }; T<1> t; T<(1)> t2; enum E7 : bool{ f0,f1}; enum E8: signed char { m=-128, n=1, o=2, p=4, z=8, yy=3}; template<class X> void fn(){ enum {A=sizeof(X),B=2,C=4,D=8,F=3}; } void g(){fn<int>();}
enum class Neg { A=-1, B=1,C=2,D=4,E=8,F=16,G=7 };
