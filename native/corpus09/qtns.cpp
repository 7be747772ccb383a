#define QT_NAMESPACE 123
class QObject{}; int x;
