#include "models.hpp"
#include "hoeffding_tree.hpp"
using namespace models; using namespace sim;
namespace {
template<class FT_, int... B> struct Sh { typedef FT_ FT; static const int FC = sizeof...(B); static int const* bins(){ static const int b[] = {B...}; return b; } };
template<class S, int LC, int SZ> struct M : Base<M<S,LC,SZ>,HoeffdingTree<typename S::FT,S::FC,LC,SZ,Math>> { typedef typename S::FT FT; double unit = std::is_integral<FT>::value ? 100 : 1;
	M(uint64_t pa, uint64_t g){ this->build(pa,g,0.01 + 0.05*(double)(pa % 10),S::bins()); double lim[64]; int k = 0; for(int f = 0; f < S::FC; ++f) for(int i = 1; i < S::bins()[f]; ++i) lim[k++] = unit*i/S::bins()[f]; In in; this->t().get_root()->set_limits(lim); } M(M const&, int){}
	void step(Rng& r, Log& o) override { int k = (int)(1 + r.below(30)); for(int i = 0; i < k; ++i){ FT x[S::FC]; for(auto& v : x) v = (FT)(unit*r.uni()); int f = (int)(this->cfg % S::FC); int l = r.below(10) == 0 ? (int)r.below(LC) : (int)(x[f] > unit*0.5) % LC; if(r.below(4)){ bool b; { In in; b = this->t().train(x,l); } o.add(b); } else { double s[LC]; int q; { In in; q = this->t().predict(x,s); } o.add(q); for(double v : s) o.add(v); } } }
	void observe(Log& o) override { Rng r(6); for(int i = 0; i < 8; ++i){ FT x[S::FC]; for(auto& v : x) v = (FT)(unit*r.uni()); double s[LC]; int q; { In in; q = this->t().predict(x,s); } o.add(q); for(double v : s) o.add(v); } } };
IModel* make(int v, uint64_t p, uint64_t g){ switch(v){ case 0: return new M<Sh<double,2,2>,2,20000>(p,g); case 1: return new M<Sh<float,3,2,4>,3,900>(p,g); case 2: return new M<Sh<int,2,5>,4,3000>(p,g); case 3: return new M<Sh<double,6>,2,1500>(p,g); case 4: return new M<Sh<double,2,2>,3,720>(p,g); case 5: return new M<Sh<float,3>,2,613>(p,g); case 6: return new M<Sh<int,2,3>,2,1111>(p,g); default: return new M<Sh<double,4,2>,3,2377>(p,g); } }
}
void models::add_hoeffding(std::vector<Def>& v){ v.push_back(Def{"HoeffdingTree",false,false,false,8,make}); }
