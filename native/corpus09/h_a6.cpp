template<class T> struct QForeachContainer { QForeachContainer(const T&t):c(t),i(0),control(1){} const T c; int* i; int control; }; template<class T> class QVector { public: T*begin(); T*end(); T&first(); };
QVector<int> v; QForeachContainer<QVector<int>> c(v); QForeachContainer<QVector<int>> d = v;
