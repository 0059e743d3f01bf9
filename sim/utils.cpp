// C29: the shared sampling and numeric helpers of Utils, against their laws and exact references.
#define SIM_MAIN
#include "prelude.hpp"
#include "utils.hpp"
#include "core.hpp"
using namespace sim;
static RandSrc g_r;
struct F { static double rand_uniform(){ return g_r.next(); } static double log(double x){ return std::log(x); } static double exp(double x){ return std::exp(x); } };
enum Op { PICK, EXPO, SHUFFLE, NUM };
// |k - n p| stays below this bound with probability 1 - 2e-16 (Bernstein)
static double slack(double n, double p){ double const L = 37, v = n*p*(1-p); return L/3 + std::sqrt(L*L/9 + 2*L*v) + 1; }
static void pick(Ctx& c, Step const& st, Rng& r){
	int const n = (int)r.range(1,12), G = 4; std::vector<double> v((size_t)n + 2*G,-3.5), in; double sum = 0; int kind = (int)r.below(4);
	for(int i = 0; i < n; ++i){ double x = kind == 0 ? (double)r.below(3) : kind == 1 ? r.uni() : kind == 2 ? (r.chance(0.6) ? 0 : r.uni()*1e-3) : std::exp(6*r.gauss()); v[(size_t)(G+i)] = x; } // relative sizes from equal to very uneven, null values included
	if(r.chance(0.3)) v[(size_t)(G + n - 1)] = 0; // the last one null
	double big = 0; for(int i = 0; i < n; ++i) big += v[(size_t)(G+i)]; if(big == 0) v[(size_t)(G + (int)r.below(n))] = 1 + (double)r.below(4);
	in = v; for(int i = 0; i < n; ++i) sum += v[(size_t)(G+i)];
	if(r.chance(0.5)) Utils::turn_array_into_probability(v.data()+G,n,sum); else Utils::turn_array_into_probability(v.data()+G,n);
	for(int i = 0; i < G; ++i) if(v[(size_t)i] != -3.5 || v[(size_t)(G+n+i)] != -3.5) c.fail("guard","turn_array_into_probability wrote outside the array");
	double acc = 0; for(int i = 0; i < n; ++i){ acc += in[(size_t)(G+i)]; double got = v[(size_t)(G+i)]; c.logd(got); if(!(std::fabs(got - acc/sum) <= 1e-12)) c.fail("distribution","entry %d of %d is %.17g, the share of the values up to it is %.17g",i,n,got,acc/sum); if(i && !(got >= v[(size_t)(G+i-1)])) c.fail("distribution","entry %d is below the one before it",i); }
	int const N = g_r.mode == RM_UNIFORM || g_r.mode == RM_RAND31 ? 2000 : 60; std::vector<int> k((size_t)n); for(int i = 0; i < G; ++i) v[(size_t)(G+n+i)] = 9; std::vector<double> const cum = v; std::vector<double> alone(v.begin()+G,v.begin()+G+n); // what lies behind would be picked, or is not ours
	for(int q = 0; q < N; ++q){ int i = Utils::pick_from_distribution<F>(q & 1 ? alone.data() : v.data()+G,n); c.log((uint64_t)i); if(i < 0 || i >= n) c.fail("pick-range","index %d picked out of %d",i,n); if(in[(size_t)(G+i)] == 0) c.fail("pick-null","index %d has a null probability and was picked",i); k[(size_t)i]++; }
	if(v != cum || !std::equal(alone.begin(),alone.end(),cum.begin()+G)) c.fail("argument","pick_from_distribution changed the distribution");
	if(N == 2000) for(int i = 0; i < n; ++i){ double p = in[(size_t)(G+i)]/sum; if(std::fabs(k[(size_t)i] - N*p) > slack(N,p)) c.fail("pick-law","index %d of probability %.6g picked %d times out of %d",i,p,k[(size_t)i],N); }
	c.state(mix(st.rs,c.h)); }
static void expo(Ctx& c, Rng& r){ double const rate = std::exp(4*r.gauss()); bool const ideal = g_r.mode == RM_UNIFORM || g_r.mode == RM_RAND31; int const N = ideal ? 2000 : 40; std::vector<double> x;
	for(int q = 0; q < N; ++q){ double e = Utils::rand_exponential<F>(rate); c.logd(e); if(!(e >= 0) || !(e < 1e300)) c.fail("exponential-range","an exponential draw of rate %.6g is %.17g",rate,e); x.push_back(e*rate); }
	if(!ideal) return; std::sort(x.begin(),x.end()); double D = 0; for(int i = 0; i < N; ++i){ double f = 1 - std::exp(-x[(size_t)i]); D = std::max(D,std::max(f - (double)i/N,(double)(i+1)/N - f)); }
	if(D > std::sqrt(36.0/(2*N))) c.fail("exponential-law","rate %.6g: the draws are %.3g away from the exponential law",rate,D); // Dvoretzky-Kiefer-Wolfowitz, 5e-16
}
template<class T> static void shuf(Ctx& c, Rng& r){ int const n = (int)r.range(0,6), G = 3; bool const ideal = g_r.mode == RM_UNIFORM || g_r.mode == RM_RAND31; int const N = ideal && n > 1 ? 2400 : 5; std::map<std::vector<int>,int> perm; std::vector<int> at((size_t)(n*n));
	for(int q = 0; q < N; ++q){ std::vector<T> a((size_t)(n + 2*G),(T)-7); for(int i = 0; i < n; ++i) a[(size_t)(G+i)] = (T)(i+1); Utils::shuffle<F>(a.data()+G,n); std::vector<int> o; std::vector<char> seen((size_t)n+1);
		for(int i = 0; i < G; ++i) if(a[(size_t)i] != (T)-7 || a[(size_t)(G+n+i)] != (T)-7) c.fail("guard","shuffle touched an element outside the array");
		for(int i = 0; i < n; ++i){ int e = (int)a[(size_t)(G+i)]; if(e < 1 || e > n || seen[(size_t)e]) c.fail("shuffle","the elements after the shuffle are not those before"); seen[(size_t)e] = 1; o.push_back(e); at[(size_t)(i*n + e - 1)]++; c.log((uint64_t)e); } perm[o]++; }
	if(N < 100) return; for(int i = 0; i < n*n; ++i) if(std::fabs(at[(size_t)i] - (double)N/n) > slack(N,1.0/n)) c.fail("shuffle-law","of %d elements, the one at %d ended at %d in %d of %d shuffles",n,i % n,i / n,at[(size_t)i],N);
	if(n <= 4){ int f = 1; for(int i = 2; i <= n; ++i) f *= i; if((int)perm.size() != f) c.fail("shuffle-law","%d of the %d orders of %d elements appeared in %d shuffles",(int)perm.size(),f,n,N); for(auto const& e : perm) if(std::fabs(e.second - (double)N/f) > slack(N,1.0/f)) c.fail("shuffle-law","one order of %d elements came %d times out of %d",n,e.second,N); } }
static void num(Ctx& c, Rng& r){ for(int q = 0; q < 40; ++q){
	int const n = (int)r.range(1,9); std::vector<double> a((size_t)n); std::vector<int> b((size_t)n); int const wide = (int)r.pick<int>({1,3,1000}); for(int i = 0; i < n; ++i){ b[(size_t)i] = (int)r.range(-wide,wide); a[(size_t)i] = wide == 1000 ? r.gauss() : b[(size_t)i]; }
	int i = Utils::index_max(a.data(),n), j = Utils::index_max(b.data(),n); if(i < 0 || i >= n || a[(size_t)i] != *std::max_element(a.begin(),a.end()) || j < 0 || j >= n || b[(size_t)j] != *std::max_element(b.begin(),b.end())) c.fail("index-max","index_max does not give the index of the largest element");
	double x = r.chance(0.2) ? (double)r.range(-5,5) : r.gauss()*std::exp(3*r.gauss()), y = r.chance(0.2) ? x : r.gauss(); int k = (int)r.range(-100000,100000), l = (int)r.range(-100000,100000); if(l == 0) l = 3;
	if(Utils::min(x,y) != std::min(x,y) || Utils::max(x,y) != std::max(x,y) || Utils::min(k,l) != std::min(k,l) || Utils::max(k,l) != std::max(k,l)) c.fail("min-max","min or max of (%g,%g) or (%d,%d) is wrong",x,y,k,l);
	if(Utils::abs(x) != std::fabs(x) || Utils::abs(k) != std::abs(k)) c.fail("abs","abs of %g or %d is wrong",x,k);
	double z = r.chance(0.3) ? (double)r.range(-2000,2000)/2 : x; if(std::fabs(z) < 1e9 && (std::fabs(std::fabs(z - std::trunc(z)) - 0.5) > 1e-6 || z*2 == std::trunc(z*2)) && Utils::round(z) != (int)std::lround(z)) c.fail("round","round(%.17g) gives %d",z,Utils::round(z));
	double d = Utils::div_int<double>(k,l); if(d != (double)(k / l)) c.fail("div-int","div_int(%d,%d) gives %g",k,l,d);
	double e = std::max(-300.0,std::min(300.0,y*3)), m = Utils::expm1<F>(e); if(!(std::fabs(m - (std::exp(e) - 1)) <= 1e-12*(1 + std::exp(e)))) c.fail("expm1","expm1(%.17g) gives %.17g",e,m); c.logd(x); c.log((uint64_t)(i*16 + j)); } }
static void run(Plan const& p, Ctx& c){ g_r = RandSrc(); int laws = 0;
	for(size_t si = 0; si < p.steps.size(); ++si){ Step const& st = p.steps[si]; c.step = (long)si; c.sim_time += 1; Rng r(st.rs); int const op = ((st.op % 4) + 4) % 4; g_r.set(mix64(st.rs ^ 77),st.rm); g_r.closed = (op == PICK || op == SHUFFLE) && (st.rs & 1) && g_r.mode != RM_UNIFORM && g_r.mode != RM_RAND31; if(g_r.closed) c.fault("random_source_that_reaches_1");
		if(op != NUM && (g_r.mode == RM_UNIFORM || g_r.mode == RM_RAND31)) ++laws;
		switch(op){ case PICK: pick(c,st,r); break; case EXPO: expo(c,r); break; case SHUFFLE: if(st.rs & 2) shuf<int>(c,r); else shuf<double>(c,r); break; case NUM: num(c,r); break; }
		c.state(mix((uint64_t)op,c.h)); }
	rand_faults(c,g_r); c.nontrivial = laws > 0; }
HarnessDef sim::harness(){ HarnessDef h; h.name = "utils"; h.ops = {"pick","exponential","shuffle","numeric"};
	h.gen = [](Rng& r, Plan& p, std::string const&, bool th){ int n = (int)r.range(2, th ? 24 : 10); for(int i = 0; i < n; ++i) p.add((int)r.below(4),{},r.u64() >> 16,r.chance(0.5) ? 0 : (int)r.below(RM_COUNT)); };
	h.exec = run; return h; }
