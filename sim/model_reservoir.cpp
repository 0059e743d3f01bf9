#include "models.hpp"
#include "reservoir_sampling.hpp"
using namespace models; using namespace sim;
namespace {
struct El { int64_t id; int32_t b; };
template<template<class,unsigned,class> class R, unsigned S> struct M : Base<M<R,S>,R<El,S,Math>> { long n = 0, fill = 0; std::vector<char> set_ = std::vector<char>(S,0);
	M(uint64_t pa, uint64_t g){ this->build(pa,g); } M(M const& o, int): n(o.n), fill(o.fill), set_(o.set_) {}
	void step(Rng& r, Log& o) override { int k = (int)(1 + r.below(6)); bool via = r.below(4) == 0; for(int i = 0; i < k; ++i){ El e{(int64_t)r.below(1000000),(int32_t)r.below(99)}; int x; if(via){ { In in; x = this->t().sample_index(); } if(x >= 0 && x < (int)S){ In in; this->t()[x] = e; } } else { In in; x = this->t().add(e); } if(x >= 0 && x < (int)S) set_[(size_t)x] = 1; o.add(x); } observe(o); }
	void observe(Log& o) override { unsigned c; { In in; c = this->t().count(); } o.add(c); for(unsigned i = 0; i < S; ++i) if(set_[i]){ El e; { In in; e = this->t()[(int)i]; } o.add((double)e.id); o.add(e.b); } } };
IModel* m1(int v, uint64_t p, uint64_t g){ switch(v){ case 0: return new M<ReservoirSampling,1>(p,g); case 1: return new M<ReservoirSampling,7>(p,g); default: return new M<ReservoirSampling,30>(p,g); } }
IModel* m2(int v, uint64_t p, uint64_t g){ switch(v){ case 0: return new M<ExponentialReservoirSampling,1>(p,g); case 1: return new M<ExponentialReservoirSampling,6>(p,g); default: return new M<ExponentialReservoirSampling,25>(p,g); } }
}
void models::add_reservoir(std::vector<Def>& v){ v.push_back(Def{"ReservoirSampling",true,false,true,3,m1}); v.push_back(Def{"ExponentialReservoirSampling",true,false,true,3,m2}); }
