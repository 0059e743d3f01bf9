#include "models.hpp"
#include "bloom_filter.hpp"
using namespace models; using namespace sim;
namespace {
template<int K, int BITS> unsigned int hk(int* e){ return (unsigned)(mix64((uint64_t)*e*7 + K) % BITS); }
typedef unsigned int (*hf)(int*);
template<int BITS, int HC> struct M : Base<M<BITS,HC>,BloomFilter<int,BITS,HC>> {
	M(uint64_t pa, uint64_t g){ hf h[5] = { hk<0,BITS>, hk<1,BITS>, hk<2,BITS>, hk<3,BITS>, hk<4,BITS> }; this->build(pa,g,h); } M(M const&, int){}
	void step(Rng& r, Log& o) override { int e = (int)r.below(90), k = (int)r.below(24); if(k < 9){ In in; this->t().add(e); } else if(k < 12){ In in; this->t().add(&e); } else if(k < 22){ bool b; { In in; b = this->t().lookup(e); } o.add(b); } else if(k == 22){ if(r.below(4) == 0){ In in; this->t().clear(); } } else { unsigned char bits[BITS]; for(auto& b : bits) b = (unsigned char)r.below(2); In in; this->t().set(bits); } }
	void observe(Log& o) override { for(int e = 0; e < 90; ++e){ bool b; { In in; b = this->t().lookup(&e); } o.add(b); } } };
IModel* make(int v, uint64_t p, uint64_t g){ switch(v){ case 0: return new M<64,3>(p,g); case 1: return new M<7,1>(p,g); default: return new M<129,5>(p,g); } }
}
void models::add_bloom(std::vector<Def>& v){ v.push_back(Def{"BloomFilter",true,false,false,3,make}); }
