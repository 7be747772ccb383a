class QObject{};
#define Q_PROPERTY(...)
class A: public QObject{ Q_PROPERTY