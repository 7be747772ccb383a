#define QT_NAMESPACE "a"
class QObject{}; int x;
