#include "models.hpp"
#include "naive_bayes.hpp"
#include "metrics.hpp"
using namespace models; using namespace sim;
namespace {
template<class FT, int LC, int FC> struct NB : Base<NB<FT,LC,FC>,NaiveBayes<FT,LC,FC,Math>> { bool any = false;
	NB(uint64_t pa, uint64_t g){ this->build(pa,g,(double)(pa % 4)); } NB(NB const& o, int): any(o.any) {}
	void step(Rng& r, Log& o) override { FT x[FC]; int l = (int)r.below(LC); for(auto& v : x) v = (FT)(10*l + (double)r.below(17)); int k = (int)r.below(12); if(k < 7){ bool b; { In in; b = r.below(2) ? this->t().train(x,l) : this->t().train(x,l,(double)(1 + r.below(3))); } any = true; o.add(b); } else if(k < 11){ if(any){ double s[LC] = {0}; int q; { In in; q = this->t().predict(x,s); } o.add(q); for(double d : s) o.add(d); } } else { double s = (double)r.below(5)/4; double g; { In in; this->t().set_smoothing(s); g = this->t().get_smoothing(); } o.add(g); } }
	void observe(Log& o) override { Rng r(5); for(int i = 0; any && i < 6; ++i){ FT x[FC]; for(auto& v : x) v = (FT)(double)r.below(40); double s[LC] = {0}; int q; { In in; q = this->t().predict(x,s); } o.add(q); for(double d : s) o.add(d); } } };
template<class T> struct Me : Base<Me<T>,T> { int L;
	Me(uint64_t pa, uint64_t g): L(3){ this->build(pa,g); } Me(Me const& o, int): L(o.L) {}
	void step(Rng& r, Log& o) override { int k = (int)r.below(14); if(k < 9){ int a = (int)r.below(L), b = r.below(2) ? a : (int)r.below(L); In in; this->t().update(a,b); } else if(k < 12) observe(o); else if(k < 13){ In in; this->t().increase_error((int)r.below(4)); } else { In in; this->t().reset(); } }
	void observe(Log& o) override { double s, u, v; bool q; { In in; s = this->t().score(); u = this->t().score(true); v = this->t().score(false,5); q = this->t().ratio(); } o.add(s); o.add(u); o.add(v); o.add(q); } };
IModel* nb(int v, uint64_t p, uint64_t g){ switch(v){ case 0: return new NB<double,3,2>(p,g); case 1: return new NB<float,2,4>(p,g); default: return new NB<int,5,1>(p,g); } }
IModel* em(int v, uint64_t p, uint64_t g){ if(v == 0) return new Me<ErrorMetrics<false>>(p,g); return new Me<ErrorMetrics<true>>(p,g); }
IModel* km(int v, uint64_t p, uint64_t g){ if(v == 0) return new Me<KappaMetrics<3,false>>(p,g); return new Me<KappaMetrics<3,true>>(p,g); }
}
void models::add_stats(std::vector<Def>& v){ v.push_back(Def{"NaiveBayes",true,false,false,3,nb}); v.push_back(Def{"ErrorMetrics",true,false,false,2,em}); v.push_back(Def{"KappaMetrics",true,false,false,2,km}); }
