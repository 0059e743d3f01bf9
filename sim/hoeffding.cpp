// C11: HoeffdingTree in buffers of every size, run in lockstep with a tree that never runs out of space.
// C12: separable concepts are learned and leaves stay independent.
// C24: every split and every score is the one of a reference tree.
#define SIM_MAIN
#include "prelude.hpp"
#include "hoeffding_tree.hpp"
#include "core.hpp"
using namespace sim;
struct Fn { static double log(double x){ return std::log(x); } static double log2(double x){ return std::log2(x); } static double sqrt(double x){ return std::sqrt(x); } static bool isnan(double x){ return std::isnan(x); } };
enum Op { STREAM, FLIP, BLOCK, PROBE, ONESIDE };
static const int BIG = 400000;
struct ShapeA { typedef double FT; static const int FC = 2, LC = 2, SUM = 4; static int const* bins(){ static const int b[] = {2,2}; return b; } };
struct ShapeB { typedef double FT; static const int FC = 3, LC = 3, SUM = 9; static int const* bins(){ static const int b[] = {3,2,4}; return b; } };
struct ShapeC { typedef float FT; static const int FC = 1, LC = 4, SUM = 5; static int const* bins(){ static const int b[] = {5}; return b; } };
struct ShapeD { typedef float FT; static const int FC = 4, LC = 2, SUM = 9; static int const* bins(){ static const int b[] = {2,3,2,2}; return b; } };
struct ShapeE { typedef int FT; static const int FC = 2, LC = 3, SUM = 7; static int const* bins(){ static const int b[] = {2,5}; return b; } };
template<class S> struct Sz { typedef HoeffdingTree<typename S::FT,S::FC,S::LC,BIG,Fn> B; static const int N = sizeof(typename B::Node), C = sizeof(int) + 2*(S::SUM - S::FC)*8 + S::SUM*4*S::LC, ROOT = N + C, SPLIT = 2*N + C; };
template<class FT> double unit(){ return std::is_integral<FT>::value ? 100 : 1; }
template<class S, class T> void root_limits(T& t){ double lim[64]; int k = 0; for(int f = 0; f < S::FC; ++f) for(int i = 1; i < S::bins()[f]; ++i) lim[k++] = unit<typename S::FT>() * i / S::bins()[f]; t.get_root()->set_limits(lim); }
template<int LC> int sane(Ctx& c, int r, double const* sc, char const* who){ double sum = 0; for(int l = 0; l < LC; ++l){ if(!(sc[l] >= 0 && sc[l] <= 1)) c.fail("score","%s: score %g of label %d",who,sc[l],l); sum += sc[l]; } if(!(std::fabs(sum-1) < 1e-9)) c.fail("score","%s: scores sum to %.17g",who,sum); if(r < 0 || r >= LC) c.fail("label","%s: label %d",who,r); for(int l = 0; l < LC; ++l) if(sc[l] > sc[r]) c.fail("label","%s: predicted %d although label %d scores higher",who,r,l); return r; }

// predict() without scores, and asked of the leaf itself, answers the same.
template<class S, class T> void same_answer(Ctx& c, T& t, typename S::FT const* x, double const* s, int l){ if(t.predict(x) != l) c.fail("label","predict() without scores answers another label than with scores"); if(t.get_root()->is_leaf()){ double q[S::LC]; int a = t.get_root()->predict(x,q); if(a != l || memcmp(q,s,sizeof q)) c.fail("label","the root is the only leaf, but its own predict() answers label %d, the tree %d",a,l); } }

template<class S> struct Probes { static const int NP = 14; typename S::FT x[NP][S::FC]; double s[NP][S::LC];
	void init(Rng& r){ for(int i = 0; i < NP; ++i) for(int f = 0; f < S::FC; ++f) x[i][f] = (typename S::FT)(unit<typename S::FT>()*r.uni()); }
	template<class T> void read(Ctx& c, T& t){ for(int i = 0; i < NP; ++i) sane<S::LC>(c,t.predict(x[i],s[i]),s[i],"probe"); } };
// Training x may change the answers of its own leaf only: whatever changed had the same scores as x before.
template<class S, class T> bool train_checked(Ctx& c, T& t, Probes<S>& pb, typename S::FT const* x, int label, bool* fresh){
	pb.read(c,t); double b[S::LC], a[S::LC]; sane<S::LC>(c,t.predict(x,b),b,"sample"); double old[Probes<S>::NP][S::LC]; memcpy(old,pb.s,sizeof old); typename S::FT keep[S::FC]; memcpy(keep,x,sizeof keep);
	bool r = t.train(x,label); if(memcmp(keep,x,sizeof keep)) c.fail("argument","train changed its input");
	sane<S::LC>(c,t.predict(x,a),a,"sample"); pb.read(c,t);
	bool onehot = true, unif = true; for(int l = 0; l < S::LC; ++l){ if(a[l] != (l == label ? 1.0 : 0.0)) onehot = false; if(b[l] != 1.0/S::LC) unif = false; }
	for(int i = 0; i < Probes<S>::NP; ++i) if(memcmp(old[i],pb.s[i],sizeof old[i])){ if(memcmp(old[i],b,sizeof b)) c.fail("leaf-interference","training a sample changed the answer of another leaf: probe %d scored %.6g for label %d before and %.6g after; the sample scored %.6g",i,old[i][label],label,pb.s[i][label],b[label]); }
	// the scores of x are label frequencies: one sample more, or a fresh leaf that saw only this sample
	if(!onehot){ double n = (a[label] - b[label]) > 1e-15 ? (1 - a[label])/(a[label] - b[label]) : -1; bool ok = n > 0.5; if(ok){ double k = std::floor(n + 0.5); for(int l = 0; l < S::LC; ++l){ double w = (k*b[l] + (l == label))/(k+1); if(std::fabs(w - a[l]) > 1e-6) ok = false; } if(k < 1e4 && std::fabs(n-k) > 0.01*k + 1e-3) ok = false; }
		if(!ok && !unif) c.fail("frequency","after a sample of label %d its score went from %.9g to %.9g: not one sample more in that leaf, nor a fresh leaf",label,b[label],a[label]); if(!ok && unif) c.fail("frequency","first sample of label %d in a fresh leaf scores %.9g",label,a[label]); }
	*fresh = onehot; return r; }

// ------------------------------------------------------------------ C11
template<class S, int MAX> void small(Plan const& p, Ctx& c){
	typedef typename S::FT FT; typedef HoeffdingTree<FT,S::FC,S::LC,MAX,Fn> T; typedef HoeffdingTree<FT,S::FC,S::LC,BIG,Fn> B;
	double const delta = 0.05 + 0.94*((p.c(2) % 100 + 100) % 100)/100.0; static Placed<B> big; Placed<T> live; live.make((uint64_t)p.c(1),delta,S::bins()); big.make((uint64_t)p.c(1),delta,S::bins()); root_limits<S>(*live.obj); root_limits<S>(*big.obj);
	Rng pr((uint64_t)p.c(3)); Probes<S> pb, pg; pb.init(pr); pg = pb; pb.read(c,*live.obj); pg.read(c,*big.obj); double const U = unit<FT>();
	struct Cn { int f[7]; double t[7]; int lab[8]; } cn; auto concept_ = [&](uint64_t seed){ Rng r(seed); for(int i = 0; i < 7; ++i){ cn.f[i] = (int)r.below(S::FC); cn.t[i] = U*r.uni(); } for(int i = 0; i < 8; ++i) cn.lab[i] = (int)r.below(S::LC); }; concept_((uint64_t)p.c(3));
	auto label = [&](FT const* x){ int n = 0; while(n < 7) n = 2*n + 1 + (x[cn.f[n]] > cn.t[n]); return cn.lab[n-7]; };
	long rootcnt[S::LC] = {0}; bool exhausted = false, diverged = false; int refused = 0; long trained = 0, leaves = 1;
	for(size_t si = 0; si < p.steps.size(); ++si){ Step const& s = p.steps[si]; c.step = (long)si; Rng r(s.rs);
		if(s.op == FLIP){ concept_(s.rs); c.fault("concept_drift"); continue; }
		if(s.op != STREAM) continue;
		int n = (int)(s.arg(0) % 400); double noise = (double)(s.arg(1) % 60)/100.0; int corner = (int)(s.arg(2) % 3); if(noise > 0) c.fault("label_noise");
		for(int k = 0; k < n; ++k){ FT x[S::FC]; for(int f = 0; f < S::FC; ++f){ double v = r.uni(); if(corner == 1) v = (double)r.range(0,10)/10; if(corner == 2) v = v*v*v; x[f] = (FT)(U*v); } int l = label(x); if(r.chance(noise)) l = (int)r.below(S::LC);
			bool fresh, freshb = false; bool was_leaf = live->get_root()->is_leaf(); double sb[S::LC]; big->predict(x,sb);
			bool ok = train_checked<S>(c,*live.obj,pb,x,l,&fresh); ++trained; c.sim_time += 1; c.log(ok); c.logd(pb.s[0][0]);
			if(!live.guards_ok()) c.fail("guard","memory outside the tree was written");
			bool is_leaf = live->get_root()->is_leaf(); if(was_leaf){ rootcnt[l]++; if(is_leaf){ double sc[S::LC]; live->predict(x,sc); for(int q = 0; q < S::LC; ++q) if(std::fabs(sc[q] - (double)rootcnt[q]/trained) > 1e-9) c.fail("frequency","a tree of one leaf scores %.9g for label %d seen %ld times in %ld samples",sc[q],q,rootcnt[q],trained); } else if(!ok) c.fail("return","train() returned false although the root was split"); }
			if(!diverged){ bool okb = train_checked<S>(c,*big.obj,pg,x,l,&freshb); if(!okb) c.fail("return","a tree with plenty of space returned false");
				double a[S::LC], b[S::LC]; live->predict(x,a); big->predict(x,b); bool same = memcmp(a,b,sizeof a) == 0 && memcmp(pb.s,pg.s,sizeof pb.s) == 0;
				if(ok && !same) c.fail("silent-refusal","sample %ld: train() returned true, but the tree answers differently from one with more space",trained);
				if(!ok) diverged = true; if(ok && fresh && freshb) ++leaves; }
			if(!ok){ ++refused; if(!exhausted) c.note("sample %ld: split refused",trained); exhausted = true; } }
		c.state(mix(mix(MAX,S::FC),mix(exhausted,c.h))); }
	c.fault("split_refused_buffer_full",refused); if(exhausted) c.fault("probe_buffer_exhausted"); if(!live->get_root()->is_leaf()) c.fault("probe_tree_split"); if(exhausted && !live->get_root()->is_leaf()) c.fault("probe_exhausted_below_the_root");
	c.nontrivial = exhausted; big.abandon(); }

// ------------------------------------------------------------------ C12
template<class S> void learn(Plan const& p, Ctx& c){
	typedef typename S::FT FT; typedef HoeffdingTree<FT,S::FC,S::LC,BIG,Fn> T; double const U = unit<FT>(), delta = 0.5 + 0.49*((p.c(2) % 100 + 100) % 100)/100.0;
	static Placed<T> live; live.make((uint64_t)p.c(1),delta,S::bins()); root_limits<S>(*live.obj); Rng pr((uint64_t)p.c(3)); Probes<S> pb; pb.init(pr); pb.read(c,*live.obj);
	int const f1 = (int)(p.c(4) % S::FC), k1 = 1 + (int)(p.c(5) % (S::bins()[f1]-1)); double const L = U*k1/S::bins()[f1];
	bool nested = p.c(6) % 2 && S::FC > 1 && S::LC > 2; int f2 = (int)(p.c(7) % S::FC); if(f2 == f1) f2 = (f1 + 1) % S::FC; int k2 = 1 + (int)(p.c(8) % std::max(1,S::bins()[f2]-1)); double L2 = U*k2/S::bins()[f2];
	bool line = S::LC > 2 && S::bins()[f1] == 2 && p.c(6) % 4 >= 2; bool const mirror = line && p.c(7) % 2; if(line){ nested = true; f2 = f1; L2 = mirror ? L/2 : (L + U)/2; } // both levels on one feature: the second split point comes from the box of the fresh leaf
	int lab[3]; { Rng q((uint64_t)p.c(9)); lab[0] = (int)q.below(S::LC); do lab[1] = (int)q.below(S::LC); while(lab[1] == lab[0]); if(nested) do lab[2] = (int)q.below(S::LC); while(lab[2] == lab[0] || lab[2] == lab[1]); else lab[2] = lab[1]; }
	auto side = [&](FT const* x){ if(line) return mirror ? (x[f1] > L ? 0 : x[f1] > L2 ? 2 : 1) : (x[f1] <= L ? 0 : x[f1] > L2 ? 2 : 1); return x[f1] <= L ? 0 : (nested && x[f2] > L2) ? 2 : 1; };
	auto gen = [&](Rng& r, int sd, FT* x){ for(;;){ for(int f = 0; f < S::FC; ++f) x[f] = (FT)(U*r.uni()); if(line){ double a = mirror ? (sd == 0 ? L : sd == 1 ? 0 : L2) : (sd == 0 ? 0 : sd == 1 ? L : L2), b = mirror ? (sd == 0 ? U : sd == 1 ? L2 : L) : (sd == 0 ? L : sd == 1 ? L2 : U); x[f1] = (FT)(a + (b-a)*r.uni()); if(std::fabs((double)x[f1] - L) < 0.02*U || std::fabs((double)x[f1] - L2) < 0.02*U) continue; if(side(x) == sd) return; continue; } double lo = sd == 0 ? 0 : L, hi = sd == 0 ? L : U; x[f1] = (FT)(lo + (hi-lo)*r.uni()); if(sd){ lo = sd == 2 ? L2 : 0; hi = sd == 2 || !nested ? U : L2; if(nested) x[f2] = (FT)(lo + (hi-lo)*r.uni()); }
		if(std::fabs((double)x[f1] - L) < 0.02*U || (nested && std::fabs((double)x[f2] - L2) < 0.02*U)) continue; if(side(x) == sd) return; } };
	long n = 0; bool fresh; auto feed = [&](FT const* x, int l, bool all){ bool ok; if(all) ok = train_checked<S>(c,*live.obj,pb,x,l,&fresh); else ok = live->train(x,l); ++n; c.sim_time += 1; if(!ok) c.fail("return","train() returned false although the buffer has plenty of space"); };
	// the corners of the space come first, so that the range of the data is known
	{ FT x[S::FC]; for(int f = 0; f < S::FC; ++f) x[f] = 0; feed(x,lab[side(x)],true); for(int f = 0; f < S::FC; ++f) x[f] = (FT)U; feed(x,lab[side(x)],true); }
	int const sides = nested ? 3 : 2;
	for(size_t si = 0; si < p.steps.size(); ++si){ Step const& s = p.steps[si]; c.step = (long)si; Rng r(s.rs); if(s.op != BLOCK) continue; int sd = (int)(s.arg(0) % sides); c.fault("one_sided_burst"); for(int k = 0; k < (int)(s.arg(1) % 150); ++k){ FT x[S::FC]; gen(r,sd,x); feed(x,lab[sd],k % 4 == 0); } if(s.arg(1) % 150) pb.read(c,*live.obj); c.state(mix(mix(f1,k1),mix((uint64_t)n,p.c(2)))); }
	// faults stop: both sides in fair order; within a bounded number of samples everything is predicted correctly
	Rng r(p.seed); auto right = [&](int rounds, int* bad){ Rng q(p.seed ^ 77); for(int k = 0; k < rounds; ++k) for(int sd = 0; sd < sides; ++sd){ FT x[S::FC]; gen(q,sd,x); double sc[S::LC]; int l = sane<S::LC>(c,live->predict(x,sc),sc,"check"); if(l != lab[sd]){ *bad = sd; return false; } } return true; };
	long const bound = 9000; bool done = false; int bad = -1; for(long k = 0; k < bound && !done; ++k){ FT x[S::FC]; int sd = nested ? (int)r.pick({0,0,1,2}) : (int)(k & 1); gen(r,sd,x); feed(x,lab[sd],false); if(k % 25 == 24) done = right(20,&bad); }
	if(!done) c.fail("not-learned","after %ld samples region %d of a concept separable on feature %d at %.4g%s is still predicted wrongly",n,bad,f1,L,nested ? " with a second level" : "");
	if(live->get_root()->is_leaf()) c.fail("not-learned","the root is still a leaf");
	c.log((uint64_t)n); pb.read(c,*live.obj); for(auto& q : pb.s) c.logd(q[0]); c.note("learned after %ld samples",n);
	// independence: one side is trained with anything; points of the other side answer bit for bit the same unless they shared the leaf of the sample (then they scored like it)
	int phases = 0; for(size_t si = 0; si < p.steps.size(); ++si){ Step const& s = p.steps[si]; c.step = (long)si; Rng q(s.rs); if(s.op != ONESIDE) continue; ++phases; int sd = (int)(s.arg(0) % 2); FT o[6][S::FC]; double b[6][S::LC]; for(int k = 0; k < 6; ++k){ gen(q,sd ? 0 : (nested ? 1 + (k & 1) : 1),o[k]); live->predict(o[k],b[k]); }
		int m = (int)(s.arg(1) % 200); c.fault("hostile_labels_on_one_side"); for(int k = 0; k < m; ++k){ FT x[S::FC]; gen(q,sd == 0 ? 0 : nested ? 1 + (int)q.below(2) : 1,x); double bx[S::LC]; live->predict(x,bx); feed(x,(int)q.below(S::LC),true); for(int z = 0; z < 6; ++z){ double a[S::LC]; live->predict(o[z],a); if(!memcmp(a,b[z],sizeof a)) continue; if(!memcmp(bx,b[z],sizeof a)){ memcpy(b[z],a,sizeof a); continue; } /* an early split elsewhere may leave both in one leaf */ c.fail("leaf-interference","training side %d changed the scores of a point of the other side (label %d: %.9g -> %.9g)",sd,lab[0],b[z][lab[0]],a[lab[0]]); } } }
	if(!live.guards_ok()) c.fail("guard","memory outside the tree was written"); for(auto& q : pb.s) c.logd(q[0]);
	c.fault("probe_concepts_learned"); if(nested) c.fault(line ? "probe_two_levels_on_one_feature" : "probe_two_level_concepts_learned"); c.nontrivial = phases > 0; live.abandon(); }

// ------------------------------------------------------------------ C24
template<class S> struct RefTree { // a Hoeffding tree written from the description: nodes in a list, no shared memory
	struct Node { int f = -1, kid[2] = {-1,-1}; double v = 0; std::vector<double> lim[S::FC]; std::vector<std::vector<long>> cnt[S::FC]; long n = 0, lab[S::LC] = {0}; std::vector<double> gain; double lo[S::FC], hi[S::FC]; };
	std::vector<Node> t; double delta; bool vague = false; double margin = 1; double last[64];
	void blank(Node& q){ q.n = 0; q.gain.assign((size_t)(S::SUM - S::FC),0); for(long& v : q.lab) v = 0; for(int f = 0; f < S::FC; ++f){ q.cnt[f].assign((size_t)S::bins()[f],std::vector<long>((size_t)S::LC,0)); } }
	void init(double d){ delta = d; t.assign(1,Node()); blank(t[0]); for(int f = 0; f < S::FC; ++f){ t[0].lim[f].assign((size_t)S::bins()[f]-1,0); t[0].lo[f] = INFINITY; t[0].hi[f] = -INFINITY; } }
	void near(double x, double v){ if(x != v && std::fabs(x-v) < 1e-7*unit<typename S::FT>()) vague = true; }
	int leaf(typename S::FT const* x){ int i = 0; while(t[(size_t)i].f >= 0){ Node& q = t[(size_t)i]; near((double)x[q.f],q.v); i = q.kid[(double)x[q.f] > q.v]; } return i; }
	static double H(std::vector<long> const& c){ double n = 0, h = 0; for(long v : c) n += (double)v; if(n == 0) return 0; for(long v : c) if(v) h -= (double)v/n*std::log2((double)v/n); return h; }
	// counts one sample; returns the candidate worth a split, or -1
	int count(int i, typename S::FT const* x, int label){ Node& q = t[(size_t)i]; q.n++; q.lab[label]++; std::vector<long> all(q.lab,q.lab+S::LC); double h = H(all); size_t k = 0; std::vector<double> avg;
		for(int f = 0; f < S::FC; ++f){ double v = (double)x[f]; q.lo[f] = std::min(q.lo[f],v); q.hi[f] = std::max(q.hi[f],v); size_t b = 0; while(b < q.lim[f].size() && v > q.lim[f][b]) ++b; for(double m : q.lim[f]) near(v,m); q.cnt[f][b][(size_t)label]++; }
		for(int f = 0; f < S::FC; ++f) for(int b = 0; b + 1 < S::bins()[f]; ++b, ++k){ std::vector<long> l((size_t)S::LC,0), r((size_t)S::LC,0); long nl = 0, nr = 0; for(int z = 0; z < S::bins()[f]; ++z) for(int y = 0; y < S::LC; ++y){ long w = q.cnt[f][(size_t)z][(size_t)y]; if(z <= b){ l[(size_t)y] += w; nl += w; } else { r[(size_t)y] += w; nr += w; } } double g = h - ((double)nl*H(l) + (double)nr*H(r))/(double)q.n; if(k < 64) last[k] = g; q.gain[k] += g; avg.push_back(q.gain[k]/(double)q.n); }
		size_t best = 0; for(size_t z = 1; z < avg.size(); ++z) if(avg[z] > avg[best]) best = z; double second = -INFINITY; for(size_t z = 0; z < avg.size(); ++z) if(z != best) second = std::max(second,avg[z]);
		double d = avg[best] - second, bound = 4*std::log(1/delta)/(2*(double)q.n); margin = std::fabs(d*d - bound)/(bound + 1e-300); if(margin < 1e-6) vague = true; return d*d > bound && avg[best] > 0 ? (int)best : -1; }
	void split(int i, int k){ int f = 0; while(k >= S::bins()[f] - 1){ k -= S::bins()[f] - 1; ++f; } double v = t[(size_t)i].lim[f][(size_t)k]; Node a = t[(size_t)i]; blank(a); Node b = a; a.hi[f] = v; b.lo[f] = v; for(Node* q : {&a,&b}) for(int g = 0; g < S::FC; ++g) for(int z = 1; z < S::bins()[g]; ++z) q->lim[g][(size_t)z-1] = q->lo[g] + z*((q->hi[g] - q->lo[g])/S::bins()[g]);
		int id = (int)t.size(); t.push_back(a); t.push_back(b); Node& q = t[(size_t)i]; q.f = f; q.v = v; q.kid[0] = id; q.kid[1] = id + 1; } };
template<class S, int MAX> void refine(Plan const& p, Ctx& c){
	typedef typename S::FT FT; typedef HoeffdingTree<FT,S::FC,S::LC,MAX,Fn> T; double const U = unit<FT>(), delta = 0.05 + 0.94*((p.c(2) % 100 + 100) % 100)/100.0;
	static Placed<T> live; live.make((uint64_t)p.c(1),delta,S::bins()); RefTree<S> ref; ref.init(delta); Rng pr((uint64_t)p.c(3));
	int lims = (int)(p.c(4) % 4); double at[64]; int k = 0; for(int f = 0; f < S::FC; ++f){ std::vector<double> v; for(int i = 1; i < S::bins()[f]; ++i) v.push_back(lims == 1 ? std::floor(U*pr.uni()*64)/64 : lims == 2 ? 0 : U*i/S::bins()[f]); std::sort(v.begin(),v.end()); for(double d : v) at[k++] = d; ref.t[0].lim[f] = v; } if(lims != 2) live->get_root()->set_limits(at); // 2: left at the default, zero
	struct Cn { int f[7]; double t[7]; int lab[8]; } cn; auto concept_ = [&](uint64_t seed){ Rng r(seed); for(int i = 0; i < 7; ++i){ cn.f[i] = (int)r.below(S::FC); cn.t[i] = r.chance(0.4) ? U*(double)r.range(1,3)/4 : U*r.uni(); } for(int i = 0; i < 8; ++i) cn.lab[i] = (int)r.below(S::LC); if(r.chance(0.4)) for(int i = 0; i < 8; ++i) cn.lab[i] = i < 4 ? cn.lab[0] : cn.lab[7]; }; concept_((uint64_t)p.c(3));
	auto label = [&](FT const* x){ int n = 0; while(n < 7) n = 2*n + 1 + (x[cn.f[n]] > cn.t[n]); return cn.lab[n-7]; };
	auto check = [&](FT const* x, char const* what){ int i = ref.leaf(x); if(ref.vague) return; auto const& q = ref.t[(size_t)i]; double s[S::LC]; int l = sane<S::LC>(c,live->predict(x,s),s,what); same_answer<S>(c,*live.obj,x,s,l); int b = 0; for(int y = 0; y < S::LC; ++y){ double w = q.n ? (double)q.lab[y]/(double)q.n : 1.0/S::LC; if(q.lab[y] > q.lab[b]) b = y; if(std::fabs(w - s[y]) > 1e-9) c.fail("score","%s: label %d scores %.12g, its region took %ld of %ld samples since the last split: %.12g",what,y,s[y],q.lab[y],q.n,w); } if(l != b && q.lab[l] != q.lab[b]) c.fail("label","%s: predicted %d, expected %d",what,l,b); };
	long n = 0, splits = 0, refused = 0; bool over = false;
	for(size_t si = 0; si < p.steps.size() && !over; ++si){ Step const& s = p.steps[si]; c.step = (long)si; Rng r(s.rs);
		if(s.op == FLIP){ concept_(s.rs); c.fault("concept_drift"); continue; }
		if(s.op != STREAM) continue;
		int m = (int)(s.arg(0) % 400); double noise = (double)(s.arg(1) % 60)/100.0, twin = (double)(s.arg(3) % 4)*0.33; int corner = (int)(s.arg(2) % 4); if(noise > 0) c.fault("label_noise");
		for(int q = 0; q < m && !over; ++q){ FT x[S::FC]; for(int f = 0; f < S::FC; ++f){ double v = r.uni(); if(corner == 1) v = (double)r.range(0,10)/10; if(corner == 2) v = v*v*v; if(corner == 3) v = v*0.25 + 0.5; x[f] = (FT)(U*v); if(f && r.chance(twin)) x[f] = x[0]; } int l = label(x); if(r.chance(noise)) l = (int)r.below(S::LC);
			int i = ref.leaf(x); int w = ref.count(i,x,l); bool ok = live->train(x,l); ++n; c.sim_time += 1; c.log(ok); if(ref.vague){ c.fault("probe_run_ended_at_a_tie"); over = true; break; }
			if(i == 0 && live->get_root()->is_leaf()){ double g[64]; live->get_root()->compute_information_gain(g); for(int z = 0; z < S::SUM - S::FC; ++z) if(!(std::fabs(g[z] - ref.last[z]) < 1e-9)) c.fail("gain","sample %ld: information gain of candidate %d is %.12g, expected %.12g",n,z,g[z],ref.last[z]); }
			if(w < 0 && !ok) c.fail("return","sample %ld: train() returned false although its region was not to be split",n);
			if(w >= 0){ if(ok){ ref.split(i,w); ref.count(ref.leaf(x),x,l); ++splits; if(ref.vague){ over = true; break; } c.note("sample %ld: node %d splits",n,i); } else { if(Sz<S>::ROOT + (splits+1)*Sz<S>::SPLIT <= MAX) c.fail("return","sample %ld: a split was refused although the buffer of %d bytes holds %ld splits and %ld were made",n,MAX,(long)((MAX - Sz<S>::ROOT)/Sz<S>::SPLIT),splits); ++refused; } }
			check(x,"the sample"); if(q % 3 == 0){ FT z[S::FC]; for(int f = 0; f < S::FC; ++f) z[f] = (FT)(U*(1.4*r.uni() - 0.2)); check(z,"a probe"); if(ref.vague){ over = true; break; } } if(ref.vague){ over = true; break; }
			if(w >= 0){ double sc[S::LC]; live->predict(x,sc); c.logd(sc[0]); } }
		if(!live.guards_ok()) c.fail("guard","memory outside the tree was written");
		c.state(mix(mix((uint64_t)p.c(0),(uint64_t)splits),mix((uint64_t)n,c.h))); }
	c.fault("split_refused_buffer_full",(uint64_t)refused); c.fault("probe_splits",(uint64_t)splits); c.nontrivial = splits > 0; live.abandon(); }

typedef void (*RunF)(Plan const&, Ctx&);
template<class S, int K> struct SizeOf { static const int v = Sz<S>::ROOT + (K == 0 ? 48 : K == 1 ? Sz<S>::SPLIT - 1 : K == 2 ? Sz<S>::SPLIT : K == 3 ? Sz<S>::SPLIT + Sz<S>::N : K == 4 ? 2*Sz<S>::SPLIT - Sz<S>::N : K == 5 ? 2*Sz<S>::SPLIT - 8 : K == 6 ? 2*Sz<S>::SPLIT + 24 : K == 7 ? 3*Sz<S>::SPLIT + Sz<S>::SPLIT/2 : K == 8 ? 5*Sz<S>::SPLIT - 4 : 9*Sz<S>::SPLIT + 17); };
#define ROWS(S) small<S,SizeOf<S,0>::v>, small<S,SizeOf<S,1>::v>, small<S,SizeOf<S,2>::v>, small<S,SizeOf<S,4>::v>, small<S,SizeOf<S,6>::v>, small<S,SizeOf<S,8>::v>
#define FEW(S) small<S,SizeOf<S,0>::v>, small<S,SizeOf<S,3>::v>, small<S,SizeOf<S,5>::v>, small<S,SizeOf<S,7>::v>
#ifdef __SANITIZE_ADDRESS__
static RunF const f11[] = { small<ShapeA,SizeOf<ShapeA,0>::v>, small<ShapeA,SizeOf<ShapeA,2>::v>, FEW(ShapeB), small<ShapeD,SizeOf<ShapeD,1>::v>, small<ShapeE,SizeOf<ShapeE,9>::v> };
#else
static RunF const f11[] = { ROWS(ShapeA), ROWS(ShapeB), FEW(ShapeC), FEW(ShapeD), FEW(ShapeE), small<ShapeD,SizeOf<ShapeD,9>::v> };
#endif
#ifdef __SANITIZE_ADDRESS__
static RunF const f24[] = { refine<ShapeA,BIG>, refine<ShapeB,SizeOf<ShapeB,8>::v>, refine<ShapeC,BIG>, refine<ShapeE,SizeOf<ShapeE,7>::v> };
#else
static RunF const f24[] = { refine<ShapeA,BIG>, refine<ShapeB,BIG>, refine<ShapeC,BIG>, refine<ShapeD,BIG>, refine<ShapeE,BIG>, refine<ShapeA,SizeOf<ShapeA,8>::v>, refine<ShapeB,SizeOf<ShapeB,7>::v>, refine<ShapeD,SizeOf<ShapeD,9>::v>, refine<ShapeE,SizeOf<ShapeE,4>::v>, refine<ShapeC,SizeOf<ShapeC,2>::v>, refine<ShapeA,SizeOf<ShapeA,1>::v> };
#endif
static RunF const f12[] = { learn<ShapeA>, learn<ShapeB>, learn<ShapeC>, learn<ShapeD>, learn<ShapeE> };
#define CNT(x) ((int)(sizeof(x)/sizeof(x[0])))
HarnessDef sim::harness(){ HarnessDef h; h.name = "hoeffding"; h.ops = {"stream","flip","block","probe","oneside"};
	h.gen = [](Rng& r, Plan& p, std::string const& prop, bool th){
		if(prop == "C11"){ p.cfg = { r.below(CNT(f11)), r.below(6), r.chance(0.6) ? r.range(80,99) : r.below(100), (int64_t)(r.u64() >> 40) }; int n = (int)r.range(2, th ? 40 : 14); bool noisy = r.chance(0.5); for(int i = 0; i < n; ++i){ if(r.chance(0.15)) p.add(FLIP,{},r.u64() >> 16); else p.add(STREAM,{r.range(5,60),noisy ? r.below(60) : 0,r.below(3)},r.u64() >> 16); } }
		else if(prop == "C24"){ p.cfg = { r.below(CNT(f24)), r.below(6), r.chance(0.6) ? r.range(80,99) : r.below(100), (int64_t)(r.u64() >> 40), r.chance(0.7) ? 0 : r.below(4) }; int n = (int)r.range(1, th ? 40 : 14), tw = r.chance(0.5) ? 0 : (int)r.below(4), big = r.chance(0.15); bool noisy = r.chance(0.6); for(int i = 0; i < n; ++i){ if(r.chance(0.12)) p.add(FLIP,{},r.u64() >> 16); else p.add(STREAM,{big ? 399 : r.range(5,90),noisy ? r.below(60) : 0,r.below(5),tw},r.u64() >> 16); } }
		else { p.cfg = { r.below(CNT(f12)), r.below(6), r.below(100), (int64_t)(r.u64() >> 40), r.below(4), r.below(5), r.below(4), r.below(4), r.below(5), (int64_t)(r.u64() >> 40) }; int n = (int)r.range(0, th ? 10 : 5); for(int i = 0; i < n; ++i) p.add(BLOCK,{r.below(3),r.range(1,80)},r.u64() >> 16); n = (int)r.range(1,4); for(int i = 0; i < n; ++i) p.add(ONESIDE,{r.below(2),r.range(20,150)},r.u64() >> 16); } };
	h.exec = [](Plan const& p, Ctx& c){ int64_t k = std::llabs(p.c(0)); if(p.prop == "C11") f11[k % CNT(f11)](p,c); else if(p.prop == "C24") f24[k % CNT(f24)](p,c); else f12[k % CNT(f12)](p,c); };
	return h; }
