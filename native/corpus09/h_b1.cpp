class QString { public: QString(const char*); QString(); QString operator+(const char*) const; QString& operator+=(const char*); bool operator==(const char*) const; QString arg(const QString&) const; bool contains(const QString&) const; QString& operator=(const char*); static QString fromLatin1(const char*,int=0); static QString fromUtf8(const char*); bool startsWith(const QString&); }; class QLatin1String { public: explicit QLatin1String(const char*); }; bool operator==(const QString&,QLatin1String); QString operator+(const char*,const QString&); template<class T> class QList{ public: QList(); QList& operator<<(const T&); };
typedef QList<QString> QStringList; void t(QString); void tr(const QString&);
#define S "abc"
#define Q QString(S)
#define L QString::fromLatin1("x")
#define P(x) t(x); tr(x); QString(x); QString v_##x = #x;
#define EQ(a) a == "x"
#define FN(n) void fn##n() { QString s = #n; s = #n; t(#n); t(QString(#n)); s == #n; s += #n; QString::fromLatin1(#n); QString::fromUtf8("a" #n); tr(QLatin1String(#n) == s ? #n : "b"); }
FN(a) FN(b)
void f(QString s,bool b){ s = S; s = Q; s = L; t(S); t(Q); t(L); t(b ? "a" : "b"); t(b ? S : ""); s == S; EQ(s); s = QString::fromLatin1(S); s = QString::fromUtf8(b ? "a" : S); s = s + S; s = S + s; s.startsWith(S); s = ("a"); s = (("a")); QStringList l; l << S << "b" << Q; t({"a"}); t(QString{"a"}); QString k{S}; QString z = {"q"}; s == QString(S); s.contains(QString()); QString a("a"), c = QString("d"); new QString("x"); s = QString::fromLatin1("a", 1); s = "a" "b"; s = L"x"; s = u8"x"; s = R"(a
b)"; QString arr[] = {"a", S, Q}; struct M { QString x = S; QString y{"a"}; M():x(S),y(Q){} }; auto lam = [x = QString(S)]{}; throw QString("x"); } QString r(){ return S; } QString r2(){ return Q; } QString dflt(QString s = S, const QString&q = "x"); QString gl = S; QString gl2(Q); const QString &gr = S;
template<class T> void tm(T x){ QString s = "a"; s == "b"; t("x"); t(x); s = x; T y = "a"; y == "b"; t(T("a")); x == "c"; QString(x) == "d"; QString(x, "a"); t("a", x); QString::fromLatin1(x); QString::fromLatin1("a", x); T::fromLatin1("x"); }
