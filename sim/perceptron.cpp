// C23: MultiLayerPerceptron against a textbook network, over histories of training, weight updates, checkpoints and crashes.
#define SIM_MAIN
#include "prelude.hpp"
#include "perceptron.hpp"
#include "core.hpp"
using namespace sim;
static RandSrc g_r; static double g_draws;
struct Soft { static double random(){ return g_r.next(); } static double activation(double x){ return x/(1 + std::fabs(x)); } static double derivative(double y){ double a = 1 - std::fabs(y); return a*a; } };
struct Tanh { static double random(){ return g_r.next(); } static double activation(double x){ return std::tanh(x); } static double derivative(double y){ return 1 - y*y; } };
struct Sig { static double random(){ return g_r.next(); } static double activation(double x){ return 1/(1 + std::exp(-x)); } static double derivative(double y){ return y*(1-y); } };
struct Line { static double random(){ return g_r.next(); } static double activation(double x){ return x; } static double derivative(double){ return 1; } };
struct Odd { static double random(){ return g_r.next(); } static double activation(double x){ return std::asinh(x); } static double derivative(double y){ return 1/std::cosh(y); } };
template<int... S> struct Shape { static const int L = sizeof...(S); static int const* s(){ static const int a[] = {S...}; return a; } static constexpr int weights(){ int a[] = {S...}, n = 0; for(int i = 1; i < L; ++i) n += (a[i-1]+1)*a[i]; return n; } static constexpr int outputs(){ int a[] = {S...}, n = 0; for(int i = 0; i < L; ++i) n += a[i]; return n; } };
enum Op { FEED, LEARN, SETN, SETL, SETA, CKPT, CRASH, EPOCH };
// weights of layer l (1..L-1), neuron n: one per neuron of the layer before, the bias last
struct Net { std::vector<int> s; std::vector<std::vector<std::vector<double>>> w, ew; double lr, ee; std::vector<std::vector<double>> out, eo; // eo, ew, ee: bounds on what rounding in another order may change
	static constexpr double U = 1e-13;
	void load(double const* p){ w.assign(s.size(),{}); for(size_t l = 1; l < s.size(); ++l) for(int n = 0; n < s[l]; ++n){ std::vector<double> v; for(int i = 0; i <= s[l-1]; ++i) v.push_back(*p++); w[l].push_back(v); } }
	template<class A> void forward(std::vector<double> const& x){ out.assign(1,x); eo.assign(1,std::vector<double>(x.size(),0)); for(size_t l = 1; l < s.size(); ++l){ std::vector<double> o, e; for(auto const& v : w[l]){ double z = v.back(), m = U*std::fabs(z); for(int i = 0; i < s[l-1]; ++i){ double t = v[(size_t)i]*out[l-1][(size_t)i]; z += t; m += U*std::fabs(t) + std::fabs(v[(size_t)i])*eo[l-1][(size_t)i]; } o.push_back(A::activation(z)); e.push_back(m + U*std::fabs(o.back())); } out.push_back(o); eo.push_back(e); } }
	template<class A> double backward(std::vector<double> const& y){ size_t L = s.size(); double e = 0; ee = 0; std::vector<std::vector<double>> d(L), ed(L); for(int n = 0; n < s[L-1]; ++n){ double o = out[L-1][(size_t)n], r = o - y[(size_t)n], q = eo[L-1][(size_t)n] + U*std::fabs(o) + U*std::fabs(y[(size_t)n]), a = A::derivative(o); e += r*r; ee += 2*std::fabs(r)*q + q*q + U*r*r; d[L-1].push_back(r*a); ed[L-1].push_back(std::fabs(a)*q + std::fabs(r)*(2*q + U)); }
		for(size_t l = L - 2; l >= 1; --l) for(int n = 0; n < s[l]; ++n){ double q = 0, m = 0; for(int k = 0; k < s[l+1]; ++k){ double z = w[l+1][(size_t)k][(size_t)n], t = z*d[l+1][(size_t)k]; q += t; m += U*std::fabs(t) + std::fabs(z)*ed[l+1][(size_t)k]; } double a = A::derivative(out[l][(size_t)n]); d[l].push_back(q*a); ed[l].push_back(m*std::fabs(a) + std::fabs(q)*(2*eo[l][(size_t)n] + U)); }
		ew.assign(L,{}); for(size_t l = 1; l < L; ++l) for(int n = 0; n < s[l]; ++n){ ew[l].push_back({}); for(int i = 0; i <= s[l-1]; ++i){ double o = i < s[l-1] ? out[l-1][(size_t)i] : 1.0, eoo = i < s[l-1] ? eo[l-1][(size_t)i] : 0; double& v = w[l][(size_t)n][(size_t)i]; ew[l].back().push_back(U*std::fabs(v) + lr*(ed[l][(size_t)n]*std::fabs(o) + std::fabs(d[l][(size_t)n])*eoo + U*std::fabs(d[l][(size_t)n]*o))); v -= lr*d[l][(size_t)n]*o; } }
		ee /= s[L-1]; return e/s[L-1]; } };
static bool close(double a, double b, double tol){ return a == b || std::fabs(a-b) <= 1e-12 + 10*tol; }
template<class H, class A, int EXTRA> void run(Plan const& p, Ctx& c){
	static const int W = H::weights(), NEED = W > H::outputs() ? W : H::outputs(); typedef MultiLayerPerceptron<H::L,NEED*16 + EXTRA,A> M; int const L = H::L; int const* s = H::s();
	double const lr = (double)(1 + std::llabs(p.c(1)) % 40)/40; Placed<M> live, back; g_r = RandSrc(); g_r.closed = true; g_r.set((uint64_t)p.c(2),(int)std::llabs(p.c(3))); uint64_t n0 = g_r.n; int sh[8]; memcpy(sh,s,sizeof(int)*(size_t)L); live.make((uint64_t)p.c(4),sh,lr); (void)n0; memset(sh,77,sizeof sh); // the shape is copied
	Net net; net.s.assign(s,s+L); net.lr = lr; bool hb = false, fed = false, fedb = false; std::vector<double> wb; std::vector<std::vector<double>> outb, eob; int learned = 0, crashes = 0;
	auto cur = [&](){ return live->get_weights(); };
	for(int i = 0; i < W; ++i) if(!(cur()[i] >= 0 && cur()[i] <= 1)) c.fail("init","initial weight %d is %.17g, the random function stays in [0,1]",i,cur()[i]);
	std::vector<double> w(cur(),cur()+W); // what the weights must be
	auto same = [&](char const* what, bool exact){ double const* q = cur(); int at = 0; for(int l = 1; l < L; ++l) for(int n = 0; n < s[l]; ++n) for(int i = 0; i <= s[l-1]; ++i, ++at) if(exact ? memcmp(q+at,&w[(size_t)at],8) != 0 : !close(q[at],w[(size_t)at],net.ew[(size_t)l][(size_t)n][(size_t)i])) c.fail(what,"weight %d of neuron %d in layer %d is %.17g, expected %.17g",i,n,l,q[at],w[(size_t)at]); };
	auto flat = [&](){ size_t at = 0; for(int l = 1; l < L; ++l) for(auto const& v : net.w[(size_t)l]) for(double x : v) w[at++] = x; };
	auto feed = [&](Rng& r){ std::vector<double> x((size_t)s[0]), y((size_t)s[L-1],-99); int kind = (int)r.below(8); for(double& v : x) v = kind == 0 ? 0 : kind == 1 ? (r.chance(0.5) ? 1 : -1) : kind == 2 ? 30*r.gauss() : r.uni()*2 - 1; std::vector<double> in = x; live->feed_forward(x.data(),y.data()); if(x != in) c.fail("argument","feed_forward changed its input"); same("feed-changed-weights",true); net.load(w.data()); net.template forward<A>(x); fed = true;
		for(int i = 0; i < s[L-1]; ++i){ c.logd(y[(size_t)i]); if(!close(y[(size_t)i],net.out.back()[(size_t)i],net.eo.back()[(size_t)i])) c.fail("output","output %d is %.17g, a network of these weights gives %.17g",i,y[(size_t)i],net.out.back()[(size_t)i]); } };
	auto learn = [&](Rng& r){ std::vector<double> y((size_t)s[L-1]); int kind = (int)r.below(5); for(size_t i = 0; i < y.size(); ++i) y[i] = kind == 0 ? net.out.back()[i] : kind == 1 ? (double)r.below(2) : r.uni()*2 - 1; std::vector<double> in = y; double e = live->backpropagate(y.data()); if(y != in) c.fail("argument","backpropagate changed its input"); double f = net.template backward<A>(y); flat(); c.logd(e); if(!close(e,f,net.ee)) c.fail("error","backpropagate returns %.17g, the mean squared error was %.17g",e,f); same("gradient",false);
		w.assign(cur(),cur()+W); for(double v : w) if(!(std::fabs(v) < 1e6)){ std::vector<double> z((size_t)W); for(double& u : z) u = r.gauss(); live->set_weights(z.data()); w = z; same("set-weights",true); c.fault("probe_weights_exploded_and_reset"); break; } fed = false; ++learned; }; // the errors replace the outputs: feed_forward comes first again
	for(size_t si = 0; si < p.steps.size(); ++si){ Step const& st = p.steps[si]; c.step = (long)si; c.sim_time += 1; Rng r(st.rs); auto rw = [&](){ int k = (int)(st.rs % 5); return k == 0 ? 0.0 : k == 1 ? (double)r.range(-2,2) : r.gauss(); };
		switch(st.op){
			case FEED: feed(r); break;
			case LEARN: if(!fed) feed(r); learn(r); break;
			case EPOCH: for(int k = 0; k < (int)(std::llabs(st.arg(0)) % 40); ++k){ feed(r); learn(r); } break;
			case SETN: { int l = 1 + (int)r.below(L-1), n = (int)r.below(s[l]); std::vector<double> v((size_t)s[l-1]+1); for(double& x : v) x = rw(); live->set_weights(l,n,v.data()); size_t at = 0; for(int q = 1; q < l; ++q) at += (size_t)((s[q-1]+1)*s[q]); at += (size_t)(n*(s[l-1]+1)); for(double x : v) w[at++] = x; same("set-weights",true); if(fed){ net.load(w.data()); c.fault("weights_set_between_feed_forward_and_backpropagate"); } break; }
			case SETL: { int l = 1 + (int)r.below(L-1); std::vector<double> v((size_t)((s[l-1]+1)*s[l])); for(double& x : v) x = rw(); live->set_weights(l,v.data()); size_t at = 0; for(int q = 1; q < l; ++q) at += (size_t)((s[q-1]+1)*s[q]); for(double x : v) w[at++] = x; same("set-weights",true); if(fed) net.load(w.data()); break; }
			case SETA: { std::vector<double> v((size_t)W); for(double& x : v) x = rw(); live->set_weights(v.data()); w = v; same("set-weights",true); if(fed) net.load(w.data()); break; }
			case CKPT: back.copy_from(*live.obj,mix64(st.rs)|4); wb = w; hb = true; fedb = fed; outb = net.out; eob = net.eo; c.fault("checkpoint"); if(fed) c.fault("checkpoint_between_feed_forward_and_backpropagate"); break;
			case CRASH: ++crashes; c.fault("crash_restart"); live.destroy(); if(hb){ live.copy_from(*back.obj,mix64(st.rs)|4); w = wb; fed = fedb; net.load(w.data()); net.out = outb; net.eo = eob; } else { g_r.set(st.rs,st.rm); memcpy(sh,s,sizeof(int)*(size_t)L); live.make(mix64(st.rs)|4,sh,lr); w.assign(cur(),cur()+W); fed = false; } same("restore",true); break; }
		if(!live.guards_ok()) c.fail("guard","memory outside the network was written");
		c.state(mix((uint64_t)p.c(0),c.h)); }
	rand_faults(c,g_r); c.nontrivial = learned >= 2; }
typedef void (*RunF)(Plan const&, Ctx&);
typedef Shape<2,3,1> A; typedef Shape<4,3> B; typedef Shape<3,5,4,2> C; typedef Shape<1,1,1> D; typedef Shape<9,2,5> E; typedef Shape<2,2,3,2,2,1> F; typedef Shape<1,6> G;
static RunF const fs[] = { run<A,Tanh,0>, run<A,Sig,100>, run<B,Line,0>, run<B,Soft,8>, run<C,Soft,0>, run<C,Odd,0>, run<D,Odd,0>, run<E,Tanh,200>, run<E,Odd,0>, run<F,Odd,0>, run<F,Tanh,0>, run<G,Line,0>, run<C,Line,0> };
static const int NF = sizeof(fs)/sizeof(fs[0]);
HarnessDef sim::harness(){ HarnessDef h; h.name = "perceptron"; h.ops = {"feed","learn","set_neuron","set_layer","set_all","ckpt","crash","epoch"};
	h.gen = [](Rng& r, Plan& p, std::string const&, bool th){ p.cfg = { r.below(NF), r.below(40), (int64_t)(r.u64() >> 34), r.chance(0.5) ? 0 : r.below(RM_COUNT), r.below(6) }; int n = (int)r.range(3, th ? 120 : 40); double cr = r.chance(0.3) ? 0 : 0.15;
		for(int i = 0; i < n; ++i){ uint64_t rs = r.u64() >> 16; double d = r.uni(); int rm = (int)r.below(RM_COUNT); if(d < cr) p.add(r.chance(0.6) ? CKPT : CRASH,{},rs,rm); else if(r.chance(0.2)) p.add(r.pick<int>({SETN,SETL,SETA}),{},rs); else if(r.chance(0.05)) p.add(EPOCH,{r.range(2,30)},rs); else p.add(r.chance(0.35) ? FEED : LEARN,{},rs); } };
	h.exec = [](Plan const& p, Ctx& c){ fs[((p.c(0) % NF) + NF) % NF](p,c); };
	return h; }
