template<class T,int N> class QMap { }; template<int N> class QList { };template<class T,int N> class QHash { };
class QVariant { public: template<class T> T value() const; template<class T> static QVariant fromValue(const T&); template<class T> void setValue(const T&); };
void f(QVariant v){ QMap<int,4096> m = v.value<QMap<int,4096>>(); QVariant::fromValue(m); auto x = v.value<QList<12345>>(); (void)x; auto y=v.value<QHash<int,5>>();(void)y; }
