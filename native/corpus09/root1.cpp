template<class T> class QList { public: int size() const; int count() const; bool isEmpty() const; T&first(); const T& first()const; T&operator[](int); QList&operator<<(const T&); QList&operator,(int); QList(); QList(const QList&); T*begin(); const T*cbegin() const; QList mid(int) const; QList& self();}; extern QList<int> gl;
class QString{ public: QString(const char*); QString(); QString(const QString&); QString arg(const QString&) const; QString arg(int) const; QString&operator=(const char*); int size() const; int count() const; const char* data(); char&operator[](int); QString mid(int)const; static QString fromLatin1(const char*); bool isEmpty()const; bool operator==(const char*) const; QString operator+(const char*)const; }; class QStringList : public QList<QString>{ public: QStringList(); QStringList&operator<<(const QString&); QStringList&operator<<(int);};
extern QStringList sl; extern QString s; extern QString &sr;
bool b1 = gl.size(); bool b2 = gl.size() > 0; bool b3 = !gl.count(); bool b4 = gl.count() == 0; void df(bool b = gl.size(), bool c=gl.count()==0);
struct M { bool b = gl.size(); bool c; M(): c(gl.count()) {} QStringList &r = sl << 1; int &f = gl.first(); int &g = gl[0]; QString&q = sr; };
QStringList&r1 = sl << 1; QStringList &r2 = (sl << 1 << 2);  int &f1 = gl.first(); int &f2 = gl[0]; int*f3 = gl.begin(); const int*f4= gl.begin(); void dg(QStringList&r = sl << 1, int&f = gl.first(), int*p = gl.begin()); 
enum { EE = sizeof(gl.size()) }; int arr[] = { gl.size(), gl.first(), gl[1] }; auto l = [x = (bool)gl.size()]{}; auto l2 = [x = sl << 1]{}; QList<int>&r5 = gl.self(); int &f7 = gl.self().first(); int c1 = gl.mid(1).count(); int &f8 = gl.mid(1)[0]; 
template<bool B = sizeof(gl.size())> struct NT{}; bool x1 = s.size(); bool x2 = s == "a"; const char*d1 = s.data(); char &d2 = s[0]; int o = s.size() ? 1 : 2; 
class QObject { public: QObject(QObject*p=0); virtual ~QObject(); template<class T> T findChild(); QObject* parent(); static void connect(QObject*,const char*,QObject*,const char*); static void connect(QObject*,void (QObject::*)(), QObject*, void(QObject::*)()); template<class F> static void connect(QObject*,void(QObject::*)(),F); template<class F> static void connect(QObject*,void(QObject::*)(),QObject*,F); void sig(); QObject*sender(); virtual bool event(int); }; extern QObject*o1; 
template<class T> T qobject_cast(QObject*); QObject*c5 = qobject_cast<QObject*>(o1); QObject *c6 = static_cast<QObject*>(o1); QObject*c7 = dynamic_cast<QObject*>(o1); QObject*c8 = (QObject*)o1; QObject* sn = o1->sender(); 
class QColor{public: QColor(const char*);}; class QUrl{public: QUrl(const QString&);}; class QByteArray{ public: QByteArray(const char*); operator const char*() const; bool isEmpty() const; int toInt(bool*ok=0); }; QByteArray qgetenv(const char*); bool ge = qgetenv("a").isEmpty(); int gi = qgetenv("a").toInt(); const char*gb = qgetenv("b"); extern QByteArray ba; const char*gc = ba; const char *gd = QByteArray("x"); QColor col("#123"); QColor col2 = "red"; QColor*col3 = new QColor("red");
class QFileInfo{public: QFileInfo(const QString&); bool exists() const; static bool exists(const QString&);}; bool fe = QFileInfo("a").exists(); QFileInfo fi("a"); bool ff = fi.exists(); class QDateTime{ public: static QDateTime currentDateTime(); QDateTime toUTC() const; long toTime_t() const; long toMSecsSinceEpoch() const; long toSecsSinceEpoch()const;}; long dt = QDateTime::currentDateTime().toMSecsSinceEpoch(); QDateTime dd = QDateTime::currentDateTime().toUTC(); 
class QVariant{ public: template<class T> T value() const; QString toString() const; }; extern QVariant v; QString vs = v.value<QString>(); int vi = v.value<int>(); QString as = s.arg("a").arg(1); QString at = QString("%1").arg("a").arg("b"); const QString &ar = s.arg(1).arg(2).arg(sr); 
long double ld = 1; int nar = 3.5; float fl = 1/3; void (QObject::*pm)() = &QObject::sig; 
