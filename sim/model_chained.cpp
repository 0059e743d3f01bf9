#include "models.hpp"
#include "chained_reservoir.hpp"
using namespace models; using namespace sim;
namespace {
template<unsigned S> struct M : Base<M<S>,ChainedReservoirSampling<int64_t,S,Math>> { unsigned now = 1; unsigned win; long n = 0;
	M(uint64_t pa, uint64_t g){ win = 5 + (unsigned)(pa % 40); this->build(pa,g); } M(M const& o, int): now(o.now), win(o.win), n(o.n) {}
	void step(Rng& r, Log& o) override { int k = (int)(1 + r.below(8)); for(int i = 0; i < k; ++i){ now += (unsigned)r.below(3); int64_t e = r.below(1000000); ++n; In in; this->t().add(e,now); } if(now > win && r.below(2)){ unsigned lim = now - win; if(n > 2*(long)S) { In in; this->t().obsolete(lim); } } observe(o); }
	void observe(Log& o) override { for(unsigned i = 0; (long)i < n && i < S; ++i){ int64_t e; { In in; e = this->t()[(int)i]; } o.add((double)e); } } };
IModel* make(int v, uint64_t p, uint64_t g){ switch(v){ case 0: return new M<1>(p,g); case 1: return new M<4>(p,g); default: return new M<12>(p,g); } }
}
void models::add_chained(std::vector<Def>& v){ v.push_back(Def{"ChainedReservoirSampling",false,true,true,3,make}); }
