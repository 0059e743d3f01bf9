#include "forests.hpp"
#include "mondrian.hpp"
using namespace forests;
namespace {
template<class S> struct Like { int sd; double sv, lo[S::FC], up[S::FC]; int l, r, p; double tau; int c[S::LC]; };
static constexpr int ROOM[] = {1,2,3,5,6,11,40};
template<class S, int T, int K> IForest* mk(double life, double base, double disc, uint64_t g, int* room){ static const int SZ = (K < 0 ? 3000 : ROOM[K < 0 ? 0 : K]) * (int)sizeof(Like<S>) + (K & 1 ? 24 : 0); if(room) *room = SZ/(int)sizeof(Like<S>); return new Wrap<S,MondrianForest<typename S::FT,Fn,T,S::FC,S::LC,SZ>>(g,life,base,disc); }
typedef IForest* (*M)(double,double,double,uint64_t,int*);
#ifdef __SANITIZE_ADDRESS__
template<class S, int T> IForest* pick(int b, double l, double ba, double d, uint64_t g, int* room){ static const M m[] = { mk<S,T,0>,mk<S,T,2>,mk<S,T,5> }; return b < 0 ? mk<S,T,-1>(l,ba,d,g,room) : m[b % 3](l,ba,d,g,room); }
#else
template<class S, int T> IForest* pick(int b, double l, double ba, double d, uint64_t g, int* room){ static const M m[] = { mk<S,T,0>,mk<S,T,1>,mk<S,T,2>,mk<S,T,3>,mk<S,T,4>,mk<S,T,5>,mk<S,T,6> }; return b < 0 ? mk<S,T,-1>(l,ba,d,g,room) : m[b % 7](l,ba,d,g,room); }
#endif
template<class S> IForest* tr(int t, int b, double l, double ba, double d, uint64_t g, int* room){ return t == 1 ? pick<S,1>(b,l,ba,d,g,room) : t == 3 ? pick<S,3>(b,l,ba,d,g,room) : pick<S,5>(b,l,ba,d,g,room); }
}
IForest* forests::bounded(int s, int t, int b, double l, double ba, double d, uint64_t g, int* room){ switch(s){ case 0: return tr<ShapeA>(t,b,l,ba,d,g,room); case 1: return tr<ShapeB>(t,b,l,ba,d,g,room); case 2: return tr<ShapeC>(t,b,l,ba,d,g,room); case 3: return tr<ShapeD>(t,b,l,ba,d,g,room); default: return tr<ShapeE>(t,b,l,ba,d,g,room); } }
