#include "models.hpp"
#include "mc_nn.hpp"
using namespace models; using namespace sim;
namespace {
template<class FT, unsigned FC, unsigned MC> struct M : Base<M<FT,FC,MC>,MCNN<FT,FC,MC>> { bool any = false;
	M(uint64_t pa, uint64_t g){ this->build(pa,g,(unsigned)(pa % 6),(unsigned)(pa/6 % 3),(double)(pa/18 % 100)); } M(M const& o, int): any(o.any) {}
	void point(Rng& r, FT* x, int l){ for(unsigned f = 0; f < FC; ++f) x[f] = (FT)(40.0*((int)((l*7 + f*3) % 5) - 2) + 30*r.gauss()); }
	void step(Rng& r, Log& o) override { FT x[FC]; int l = (int)r.below(5); point(r,x,l); if(r.below(5)){ bool b; int n; { In in; b = this->t().train(x,r.below(8) ? l : (int)r.below(5)); n = this->t().count_clusters(); } o.add(b); o.add(n); } else { int q; { In in; q = this->t().predict(x); } o.add(q); } }
	void observe(Log& o) override { Rng r(4); for(int i = 0; i < 12; ++i){ FT x[FC]; point(r,x,i % 5); int q; { In in; q = this->t().predict(x); } o.add(q); } { In in; l_ = this->t().count_clusters(); } o.add(l_); unsigned e; { In in; e = this->t().get_error_thr(); } o.add(e); { In in; e = this->t().get_performance_thr(); } o.add(e); } int l_ = 0; };
IModel* make(int v, uint64_t p, uint64_t g){ switch(v){ case 0: return new M<double,2,10>(p,g); case 1: return new M<float,5,1>(p,g); case 2: return new M<int,3,4>(p,g); default: return new M<double,1,25>(p,g); } }
}
void models::add_mcnn(std::vector<Def>& v){ v.push_back(Def{"MCNN",true,false,false,4,make}); }
