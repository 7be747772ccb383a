class QObject { public: virtual ~QObject(); };
template<int N> class QFlags{}; template<int N, class T> struct Arr{}; namespace A { enum E{a}; template<class T,int N> struct B{}; template<class...T> struct V{}; template<template<class> class X> struct TT{}; template<class T> struct Id{}; 
class C : public QObject {
#define signals public __attribute__((annotate("qt_signal")))
#define Q_SIGNALS signals
#define slots __attribute__((annotate("qt_slot")))
#define Q_INVOKABLE
#define Q_OBJECT public: int qt_metacast();
 Q_OBJECT
signals: void s1(B<int,5> b); void s2(Arr<5,int> x); void s3(V<int,E> x); void s4(TT<Id> x); void s5(V<>); void s6(V<Arr<3,B<int,4>>> z);
public slots: void t1(B<int,5> b); void t2(Arr<5,E> x); B<E,3> t3(V<int,E> x); void t4(TT<Id> x); TT<Id> t5(V<>);
Q_INVOKABLE B<E,3> t6();
};}
