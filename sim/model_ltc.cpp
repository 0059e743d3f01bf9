#include "models.hpp"
#include "ltc.hpp"
using namespace models; using namespace sim;
namespace {
template<class V, class T, int EPS, int MX, int MN> struct M : Base<M<V,T,EPS,MX,MN>,LTC<V,T,EPS,MX,MN>> { T now = 0; double level = 0; bool any = false;
	M(uint64_t pa, uint64_t g){ this->build(pa,g); } M(M const& o, int): now(o.now), level(o.level), any(o.any) {}
	void step(Rng& r, Log& o) override { int k = (int)(1 + r.below(10)); double slope = 4*r.gauss(); for(int i = 0; i < k; ++i){ level += slope + 0.5*r.gauss(); if(r.below(12) == 0) level = MN + r.uni()*((double)MX - MN); if(level > MX) level = MX; if(level < MN) level = MN; now += (T)r.range(1,3); bool b; { In in; b = this->t().add(now,(V)level); } any |= b; o.add(b); if(any) observe(o); } }
	void observe(Log& o) override { if(!any) return; T t; V v; { In in; this->t().get_value_to_transmit(t,v); } o.add((double)t); o.add((double)v); } };
IModel* make(int v, uint64_t p, uint64_t g){ switch(v){ case 0: return new M<int,unsigned int,5,32767,-32768>(p,g); case 1: return new M<double,double,2,100,-100>(p,g); default: return new M<short,long,1,1000,0>(p,g); } }
}
void models::add_ltc(std::vector<Def>& v){ v.push_back(Def{"LTC",true,false,false,3,make}); }
