#include "models.hpp"
#include "perceptron.hpp"
using namespace models; using namespace sim;
namespace {
// buffers of exactly the weights the shape needs, or generous ones
template<int... S> struct Sh { static const int L = sizeof...(S); static int const* s(){ static const int a[] = {S...}; return a; }
	static constexpr int w(){ int a[] = {S...}, n = 0; for(int i = 1; i < L; ++i) n += (a[i-1]+1)*a[i]; return n; } static constexpr int o(){ int a[] = {S...}, n = 0; for(int i = 0; i < L; ++i) n += a[i]; return n; } static constexpr int need(){ return w() > o() ? w() : o(); } };
template<class H, int MAXB> struct M : Base<M<H,MAXB>,MultiLayerPerceptron<H::L,MAXB,Math>> { bool fed = false; static int in_(){ return H::s()[0]; } static int out_(){ return H::s()[H::L-1]; }
	M(uint64_t pa, uint64_t g){ this->build(pa,g,H::s(),(double)(1 + pa % 9)/20); } M(M const& o, int): fed(o.fed) {}
	void feed(Rng& r, Log& o){ std::vector<double> x((size_t)in_()), y((size_t)out_()); for(double& v : x) v = 2*r.uni() - 1; { In in; this->t().feed_forward(x.data(),y.data()); } fed = true; for(double v : y) o.add(v); }
	void step(Rng& r, Log& o) override { int k = (int)r.below(12); if(k < 4) feed(r,o); else if(k < 9){ feed(r,o); std::vector<double> e((size_t)out_()); for(double& v : e) v = 2*r.uni() - 1; double q; { In in; q = this->t().backpropagate(e.data()); } o.add(q); } else if(k == 9){ int l = 1 + (int)r.below(H::L-1), n = (int)r.below(H::s()[l]); std::vector<double> w((size_t)H::s()[l-1]+1); for(double& v : w) v = r.gauss(); In in; this->t().set_weights(l,n,w.data()); } else if(k == 10){ int l = 1 + (int)r.below(H::L-1); std::vector<double> w((size_t)((H::s()[l-1]+1)*H::s()[l])); for(double& v : w) v = r.gauss(); In in; this->t().set_weights(l,w.data()); } else { std::vector<double> w((size_t)H::w()); for(double& v : w) v = r.gauss(); In in; this->t().set_weights(w.data()); } }
	void observe(Log& o) override { double* w; { In in; w = this->t().get_weights(); } for(int i = 0; i < H::w(); ++i) o.add(w[i]); } };
template<class H> struct Exact { static const int B = H::need()*16; };
IModel* make(int v, uint64_t p, uint64_t g){ typedef Sh<2,3,1> A; typedef Sh<4,3> B; typedef Sh<3,5,4,2> C; typedef Sh<1,1,1> D; typedef Sh<9,2,5> E; switch(v){ case 0: return new M<A,Exact<A>::B>(p,g); case 1: return new M<B,Exact<B>::B>(p,g); case 2: return new M<C,Exact<C>::B>(p,g); case 3: return new M<D,Exact<D>::B>(p,g); default: return new M<E,Exact<E>::B + 200>(p,g); } }
}
void models::add_perceptron(std::vector<Def>& v){ v.push_back(Def{"MultiLayerPerceptron",true,false,true,5,make}); }
