#include "models.hpp"
#include "cuckoo_filter.hpp"
using namespace models; using namespace sim;
namespace {
template<int BC, int ES> struct Fu { static unsigned char fingerprint(int const* e){ return (unsigned char)(mix64((uint64_t)*e + 7) % (1u << ES)); } static unsigned int hash(int const* e){ return (unsigned)(mix64((uint64_t)*e + 1000) % BC); } static unsigned int hash(unsigned char fp){ return (unsigned)(mix64((uint64_t)fp + 5000) % BC); } };
template<int BC, int BS, int ES, int EV> struct M : Base<M<BC,BS,ES,EV>,CuckooFilter<int,BC,BS,ES,Fu<BC,ES>,rnd,EV>> {
	M(uint64_t pa, uint64_t g){ this->build(pa,g); } M(M const&, int){}
	void step(Rng& r, Log& o) override { int e = (int)r.below(60), k = (int)r.below(20); if(k < 10){ bool b; { In in; b = this->t().add(e); } o.add(b); } else if(k < 14){ bool b; { In in; b = this->t().lookup(e); } if(b){ In in; this->t().remove(e); } o.add(b); } else if(k < 19){ bool b; { In in; b = this->t().lookup(&e); } o.add(b); } else if(r.below(6) == 0){ In in; this->t().clear(); } }
	void observe(Log& o) override { for(int e = 0; e < 60; ++e){ bool b; { In in; b = this->t().lookup(e); } o.add(b); } } };
template<int BC, int BS, int ES, int EV> IModel* mk(uint64_t p, uint64_t g){ return new M<BC,BS,ES,EV>(p,g); }
IModel* make(int v, uint64_t p, uint64_t g){ switch(v){ case 0: return mk<8,4,8,0>(p,g); case 1: return mk<4,2,5,0>(p,g); case 2: return mk<16,3,7,1>(p,g); default: return mk<2,4,3,5>(p,g); } }
}
void models::add_cuckoo(std::vector<Def>& v){ v.push_back(Def{"CuckooFilter",true,false,false,4,make}); }
