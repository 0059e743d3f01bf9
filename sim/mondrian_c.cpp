#include "forests.hpp"
#include "mondrian_coarse.hpp"
using namespace forests;
namespace {
static constexpr int ROOM[] = {1,2,3,5,6,11,40};
typedef ErrorMetrics<false> St;
// The library only compiles with double features; integers behave the same, for float features this forest is left out of the comparison.
// the object of the largest number of trees decides the budget: trees are a run-time parameter of this forest
template<class S> struct SD { typedef double FT; static const int FC = S::FC, LC = S::LC; };
template<class S, int K> IForest* mk(int t, double life, double base, double disc, uint64_t g, int* room, int mgmt, int limit){ static const int SZ = (K < 0 ? 3000 : ROOM[K < 0 ? 0 : K]) * (int)sizeof(MondrianNode<S::FC,S::LC>) + 5*64; typedef CoarseMondrianForest<double,Fn,St,S::FC,S::LC,SZ> F;
	if(room) *room = (SZ - t*(int)sizeof(typename F::TreeBase))/(int)sizeof(MondrianNode<S::FC,S::LC>); return new Wrap<SD<S>,F>(g,life,base,disc,t,mgmt,NODE_SIZE,limit,0,false,0,0,1.0,true,true,1.0,1.0,0,EXTEND_ORIGINAL,TRIM_NONE,1.0); }
typedef IForest* (*M)(int,double,double,double,uint64_t,int*,int,int);
#ifdef __SANITIZE_ADDRESS__
template<class S> IForest* tr(int t, int b, double l, double ba, double d, uint64_t g, int* room, int mg, int li){ static const M m[] = { mk<S,1>,mk<S,5> }; return b < 0 ? mk<S,-1>(t,l,ba,d,g,room,mg,li) : m[b % 2](t,l,ba,d,g,room,mg,li); }
#else
template<class S> IForest* tr(int t, int b, double l, double ba, double d, uint64_t g, int* room, int mg, int li){ static const M m[] = { mk<S,0>,mk<S,1>,mk<S,2>,mk<S,3>,mk<S,4>,mk<S,5>,mk<S,6> }; return b < 0 ? mk<S,-1>(t,l,ba,d,g,room,mg,li) : m[b % 7](t,l,ba,d,g,room,mg,li); }
#endif
template<class S, int T, int K> IForest* tw(double life, double base, double disc, uint64_t g){ typedef CoarseMondrianForest<double,Fn,St,S::FC,S::LC,1000> Any; static const int SZ = ROOM[K]*(int)sizeof(MondrianNode<S::FC,S::LC>) + T*(int)sizeof(typename Any::TreeBase); return new Wrap<SD<S>,CoarseMondrianForest<double,Fn,St,S::FC,S::LC,SZ>>(g,life,base,disc,T,COBBLE_MANAGEMENT,NODE_SIZE,-1,0,false,0,0,1.0,true,true,1.0,1.0,0,EXTEND_ORIGINAL,TRIM_NONE,1.0); }
typedef IForest* (*W)(double,double,double,uint64_t);
#ifdef __SANITIZE_ADDRESS__
template<class S, int T> IForest* twk(int b, double l, double ba, double d, uint64_t g){ static const W m[] = { tw<S,T,0>,tw<S,T,2>,tw<S,T,5> }; return m[b % 3](l,ba,d,g); }
#else
template<class S, int T> IForest* twk(int b, double l, double ba, double d, uint64_t g){ static const W m[] = { tw<S,T,0>,tw<S,T,1>,tw<S,T,2>,tw<S,T,3>,tw<S,T,4>,tw<S,T,5>,tw<S,T,6> }; return m[b % 7](l,ba,d,g); }
#endif
template<class S> IForest* twt(int t, int b, double l, double ba, double d, uint64_t g){ return t == 1 ? twk<S,1>(b,l,ba,d,g) : t == 3 ? twk<S,3>(b,l,ba,d,g) : twk<S,5>(b,l,ba,d,g); }
}
IForest* forests::coarse(int s, int t, int b, double l, double ba, double d, uint64_t g, int* room, int mg, int li){ switch(s){ case 0: return tr<ShapeA>(t,b,l,ba,d,g,room,mg,li); case 1: return tr<ShapeB>(t,b,l,ba,d,g,room,mg,li); case 2: return tr<ShapeC>(t,b,l,ba,d,g,room,mg,li); case 3: return tr<ShapeD>(t,b,l,ba,d,g,room,mg,li); default: return tr<ShapeE>(t,b,l,ba,d,g,room,mg,li); } }
IForest* forests::coarse_twin(int s, int t, int b, double l, double ba, double d, uint64_t g){ switch(s){ case 0: return twt<ShapeA>(t,b,l,ba,d,g); case 2: return twt<ShapeC>(t,b,l,ba,d,g); default: return twt<ShapeE>(t,b,l,ba,d,g); } }
