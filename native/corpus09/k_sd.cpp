#define Q_PROPERTY(...) 
#define P Q_PROPERTY(int a READ a)
#define P2(x) x
#define P3(x) Q_PROPERTY(x)
#define P4(x, y) x y
#define CAT(a,b) a##b
#define NM CAT(Q_PRO,PERTY)
struct X { P P2(Q_PROPERTY(int b READ b)) P3(int c READ c) P4(Q_PROPERTY, (int a READ d)) NM(int f READ f)  P2(P2(P)) };
