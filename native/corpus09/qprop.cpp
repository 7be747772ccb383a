#define Q_PROPERTY(...)
#define QQ Q_PROPERTY
#define W(x) Q_PROPERTY(x)
class QObject{}; typedef int&RT; template<class T> class Vv{}; namespace NS{ class K{}; } 
class A : public QObject { Q_PROPERTY() Q_PROPERTY(int) Q_PROPERTY(int a) Q_PROPERTY(int a READ) Q_PROPERTY(int b READ b WRITE) Q_PROPERTY(Vv<int> c READ c NOTIFY) Q_PROPERTY(const char *d READ d MEMBER) Q_PROPERTY( int*&e READ e ) Q_PROPERTY(*) Q_PROPERTY(&) Q_PROPERTY(* *) Q_PROPERTY(int*) Q_PROPERTY (int f READ f) QQ(int g READ g) W(int h READ h) Q_PROPERTY
 (int i READ i) Q_PROPERTY(int j READ NULL) Q_PROPERTY(READ) Q_PROPERTY(WRITE NOTIFY) Q_PROPERTY(a b c d e f g) Q_PROPERTY(RT k READ k MEMBER m_k) Q_PROPERTY(int && l READ l) Q_PROPERTY(<>) Q_PROPERTY(() a) Q_PROPERTY("x" y READ y) Q_PROPERTY(int
 n
 READ n) Q_PROPERTY(int o READ o /*c*/ FINAL) Q_PROPERTY(T<A,B> p READ p) Q_PROPERTY(unsigned int q READ q) Q_PROPERTY(int r MEMBER m_r)
 int a(); void b(int); int b(); Vv<int> c(); char*d(); int*&e(); RT k(); double l(); int m_k; RT m_r = m_k; int o(); long q(); auto n(){ return 1; } template<class T> T p(); template<class T> void setP(T); RT i(); int j(int); void f(); int f(int); };
