class QReadWriteLock { public: void lockForRead(); bool tryLockForRead(); void unlock(); }; class QReadLocker { public: QReadLocker(QReadWriteLock*); void unlock(); }; template<class T> class QList { public: T&first(); int size() const; T&operator[](int); QList&operator<<(int);};
QReadWriteLock g; bool gb = g.tryLockForRead(); void (QReadWriteLock::*pm)(); void (QList<int>::*pl)();
struct S { QReadWriteLock l; bool b = l.tryLockForRead(); QList<int> m; S() : b(l.tryLockForRead()) {} void f(){ QReadLocker k(&l); (m.*pl)(); (this->*fp)(); m.first(); m[0]; m << 1; [this]{ m.first(); }(); } void h() { l.lockForRead(); (m.*pl)(); m.first(); l.unlock(); } void (S::*fp)(); };
void df(bool b = g.tryLockForRead()); bool c = (g.lockForRead(), true); 
void tf(S s) try { s.l.lockForRead(); (s.m.*pl)(); s.m.first(); } catch(...) { s.l.lockForRead(); }
template<class T> void tt(T t){ QReadLocker k(&g); t.first(); (t.*pl)(); t[0]; QList<int> q; q.first(t); q[t]; T()(); }
