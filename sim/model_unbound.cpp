#include "model_forest.hpp"
#include "mondrian_unbound.hpp"
using namespace models; using namespace sim;
namespace {
template<class FT, int FC, int LC> struct M : IModel { typedef MondrianForestUnbound<FT,Math,FC,LC> T; Placed<T> p; uint64_t cfg;
	M(uint64_t pa, uint64_t g): cfg(pa){ In in; p.make(g,0.2*(double)(pa % 50),(double)(1 + pa/50 % 10)/10,(double)(pa/500 % 20)/50,(int)(1 + pa/10000 % 4)); }
	void step(Rng& r, Log& o) override { forest_step<FT,FC,LC>(*this,*p.obj,r,o); }
	void observe(Log& o) override { forest_observe<FT,FC,LC>(*this,*p.obj,o); }
	IModel* copy(uint64_t) override { return nullptr; } bool guards_ok() override { return p.guards_ok(); }
	~M(){ In in; p.destroy(); } };
IModel* make(int v, uint64_t p, uint64_t g){ switch(v){ case 0: return new M<double,2,2>(p,g); case 1: return new M<float,3,4>(p,g); default: return new M<int,1,3>(p,g); } }
}
void models::add_unbound(std::vector<Def>& v){ v.push_back(Def{"MondrianForestUnbound",false,true,false,3,make}); }
