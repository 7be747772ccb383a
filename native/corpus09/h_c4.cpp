class QString { public: QString(const char*); QString(); QString operator+(const char*) const; }; class QLatin1String{public: explicit QLatin1String(const char*);}; bool operator==(const QString&,const char*); bool operator==(const QString&,QLatin1String); void t(const QString&); class QUrl{ public: QUrl(const QString&);};
#define CALL(x) t(QString(x))
#define ALL(n) void f_##n(){ QString a(  "x" ); QString b = QString(  "y" ) ; t(QString("z")); t(  QString(  #n  )); t("a"); QString::fromLatin1("q"); }
#define P1 QString(
#define P2 )
ALL(a)
#define BODY QString a( "x" ); t( QString( "y" ) ); t( "z" );
void g(){ BODY } void h(){ CALL("a"); CALL(  "b" ); t( P1 "a" P2 ); t( QString( "a" P2 ); QString a( "x" P2; t(P1    "a"   )); QString b{   "a"   }; QUrl( QString(  "a" ) ); }
