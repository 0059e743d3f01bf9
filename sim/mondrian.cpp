// C13: the three Mondrian forests in lockstep under the same draws. C14: forests in exhausted memory.
// C27 (lockstep part): scores agree and are a distribution.
// C26 (lockstep part): the forests whose trees cannot be seen draw like the coarse one.
// C15: the unbound forest under failing allocations.
#define SIM_MAIN
#include "forests.hpp"
using namespace sim; using namespace forests;
namespace forests { RandSrc* src; bool counting; long blocks_live, blocks_made, double_frees, failed; }
// ------------------------------------------------------------------ the heap the library sees
static long g_ord, g_from = -1, g_len, g_bad; static uint64_t g_hash; static int g_pct;
struct Hdr { uint64_t magic, pad; };
static const uint64_t LIB = 0x11b11b11b11bull, MINE = 0x313131ull, GONE = 0xdeaddeadull;
static void* heap_new(size_t n, bool thr){ bool lib = counting; if(lib){ long o = g_ord++; if((g_from >= 0 && o >= g_from && o < g_from + g_len) || (g_pct && mix(g_hash,o) % 100 < (uint64_t)g_pct)){ ++forests::failed; if(thr) throw std::bad_alloc(); return nullptr; } }
	Hdr* h = (Hdr*)::malloc(n + sizeof(Hdr)); if(!h) abort(); h->magic = lib ? LIB : MINE; if(lib){ ++blocks_live; ++blocks_made; } return h + 1; }
static void heap_delete(void* p){ if(!p) return; Hdr* h = (Hdr*)p - 1; if(h->magic == GONE){ ++double_frees; return; } if(h->magic == LIB){ --blocks_live; h->magic = GONE; return; } /* kept, so that a second release is recognised */ if(h->magic != MINE){ ++g_bad; return; } h->magic = 0; ::free(h); }
void* operator new(size_t n){ return heap_new(n,true); } void* operator new[](size_t n){ return heap_new(n,true); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return heap_new(n,false); } void* operator new[](size_t n, std::nothrow_t const&) noexcept { return heap_new(n,false); }
void operator delete(void* p) noexcept { heap_delete(p); } void operator delete[](void* p) noexcept { heap_delete(p); }
void operator delete(void* p, size_t) noexcept { heap_delete(p); } void operator delete[](void* p, size_t) noexcept { heap_delete(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { heap_delete(p); } void operator delete[](void* p, std::nothrow_t const&) noexcept { heap_delete(p); }

enum Op { TRAIN, PREDICT, AGAIN, REPEAT, SYNC, FAILK, FAILRND, REBUILD };
struct Pt { double x[5]; int l; };
// A stream with blobs, grid points, degenerate features, outliers and label noise.
struct World { ShapeInfo s; double cen[6][5], scale; Rng r; std::vector<Pt> seen;
	World(int shape, uint64_t seed): s(info[shape]), r(seed){ scale = s.kind == 2 ? 40 : 1; for(auto& c : cen) for(double& v : c) v = scale*(2*r.uni() - 1); }
	double snap(double v){ if(s.kind == 2) return std::floor(v + 0.5); if(s.kind == 1) return (double)(float)v; return v; }
	Pt point(Rng& q, int kind){ Pt p; int k = (int)q.below(6); p.l = k % s.lc; for(int f = 0; f < 5; ++f) p.x[f] = 0; for(int f = 0; f < s.fc; ++f){ double v; switch(kind % 6){ case 1: v = scale*(double)q.range(-3,3)/3; break; case 2: v = f ? cen[0][f] : scale*(2*q.uni()-1); break; case 3: v = scale*(q.chance(0.2) ? 1000*(2*q.uni()-1) : cen[k][f] + 0.1*q.gauss()); break; case 4: v = scale*(2*q.uni()-1); break; default: v = cen[k][f] + scale*0.15*q.gauss(); } p.x[f] = snap(v); } if(kind % 6 == 4 || q.chance(0.1)) p.l = (int)q.below(s.lc); return p; }
	void remember(Pt const& p){ if(seen.size() < 4000) seen.push_back(p); else seen[(size_t)r.below(4000)] = p; } };
static bool close_(double a, double b, double tol){ if(a != a || b != b) return false; if(a == b) return true; return std::fabs(a-b) <= tol*std::max(1.0,std::max(std::fabs(a),std::fabs(b))); }
static const int TREES[4] = {1,3,3,5};

static void distribution(Ctx& c, char const* nm, double const* s, int l, int lc, bool unit){ double sum = 0; for(int k = 0; k < lc; ++k){ sum += s[k]; if(!(s[k] >= -1e-9 && s[k] <= 1 + 1e-9)) c.fail("range","%s: score %.17g of label %d",nm,s[k],k); if(!(s[k] <= s[l])) c.fail("label","%s: label %d has score %.17g, predicted label %d has %.17g",nm,k,s[k],l,s[l]); } if(unit && !(std::fabs(sum-1) <= 1e-9)) c.fail("sum","%s: scores sum to %.17g",nm,sum); c.fault(unit ? "probe_distribution_judged" : "probe_range_judged"); }
// ------------------------------------------------------------------ C13
static void agree(Plan const& p, Ctx& c){
	int shape = (int)(p.c(0) % 5), trees = TREES[p.c(1) % 4]; double life = 0.05*(double)(p.c(2) % 200)*(p.c(2) % 10 == 9 ? 100 : 1), disc = (double)(p.c(3) % 40)*(p.c(3) % 3 ? 0.01 : 0.1), base = (double)(1 + p.c(4) % 20)/20.0; World w(shape,(uint64_t)p.c(5)); int const lc = w.s.lc; bool const c27 = p.prop == "C27", unit = c27 && p.c(4) % 3; if(unit) base = 1.0/lc;
	double const tol = 1e-9; static char const* nm[6] = {"bounded","unbound","coarse","bounded (never asked)","unbound (never asked)","coarse (never asked)"};
	std::unique_ptr<IForest> f[6]; RandSrc rs[6]; for(int i = 0; i < 6; ++i){ src = &rs[i]; uint64_t g = (uint64_t)p.c(6) + (i >= 3 ? 2 : 0); f[i].reset(i % 3 == 0 ? bounded(shape,trees,-1,life,base,disc,g,nullptr) : i % 3 == 1 ? unbound(shape,trees,life,base,disc) : coarse(shape,trees,-1,life,base,disc,g,nullptr,(int)(p.c(7) % 2 ? 3 : 0),-1)); }
	long n = 0; long const cap = 1300/trees;
	auto compare = [&](Pt const& q, int hi, char const* when){ double s[6][8]; int l[6]; for(int i = 0; i < hi; ++i){ src = &rs[i]; for(double& v : s[i]) v = 0.125; l[i] = f[i]->predict(q.x,s[i]); if(l[i] < 0 || l[i] >= lc) c.fail("label","%s returned label %d",nm[i],l[i]); if(c27) distribution(c,nm[i],s[i],l[i],lc,unit); }
		for(int i = 1; i < hi; ++i){ if(i % 3 == 2 && shape == 1) continue; for(int k = 0; k < lc; ++k) if(!close_(s[0][k],s[i][k],tol)) c.fail("disagree","%s: after %ld samples, score of label %d: bounded %.17g, %s %.17g",when,n,k,s[0][k],nm[i],s[i][k]);
			if(l[i] != l[0]){ double d = std::fabs(s[0][l[i]] - s[0][l[0]]); if(!(d <= 4*tol*std::max(1.0,std::fabs(s[0][l[0]])))) c.fail("disagree","%s: after %ld samples, label: bounded %d, %s %d",when,n,l[0],nm[i],l[i]); } }
		for(int k = 0; k < lc; ++k){ int a = 0; for(int j = 1; j < lc; ++j) if(s[0][j] > s[0][a]) a = j; if(l[0] != a && s[0][a] == s[0][a] && s[0][l[0]] < s[0][a]) c.fail("label","%s: predicted label %d scores less than label %d",when,l[0],a); }
		c.log((uint64_t)l[0]); };
	for(size_t si = 0; si < p.steps.size(); ++si){ Step const& s = p.steps[si]; c.step = (long)si; Rng r(s.rs); for(auto& q : rs) q.set(s.rs ^ 99,s.rm);
		if(s.op == TRAIN || s.op == AGAIN) for(int k = 0; k < (int)(s.arg(0) % 80) && n < cap; ++k){ Pt q = s.op == AGAIN && !w.seen.empty() ? w.seen[(size_t)r.below((int64_t)w.seen.size())] : w.point(r,(int)s.arg(1)); ++n; c.sim_time += 1; w.remember(q); uint64_t draws[6];
				for(int i = 0; i < 6; ++i){ src = &rs[i]; draws[i] = rs[i].n; bool ok = f[i]->train(q.x,q.l); draws[i] = rs[i].n - draws[i]; if(!ok) c.fail("return","%s: train() returned false although memory suffices",nm[i]); }
				if(s.op == AGAIN) c.fault("duplicated_sample"); c.log(draws[0]); }
		else if(s.op == PREDICT) for(int k = 0; k < (int)(s.arg(0) % 20); ++k){ Pt q = k % 2 && !w.seen.empty() ? w.seen[(size_t)r.below((int64_t)w.seen.size())] : w.point(r,(int)s.arg(1) + k); compare(q,3,"predict"); }
		else if(s.op == SYNC){ for(int k = 0; k < 4; ++k){ Pt q = k % 2 && !w.seen.empty() ? w.seen[(size_t)r.below((int64_t)w.seen.size())] : w.point(r,k); compare(q,3,"sync"); } }
		c.state(mix(mix(shape*8 + trees,(uint64_t)n),c.h)); }
	Rng r(p.seed); for(int k = 0; k < 12; ++k){ Pt q = k % 2 && !w.seen.empty() ? w.seen[(size_t)r.below((int64_t)w.seen.size())] : w.point(r,k); compare(q,6,"at the end"); }
	for(int i = 0; i < 6; ++i) if(!f[i]->guards_ok()) c.fail("guard","%s: memory outside the forest was written",nm[i]);
	RandSrc tot; for(int m = 0; m < RM_COUNT; ++m) for(auto& q : rs) tot.used[m] += q.used[m]; rand_faults(c,tot); c.nontrivial = n >= 10; }

// ------------------------------------------------------------------ C14
static void exhausted(Plan const& p, Ctx& c){
	int shape = (int)(p.c(0) % 5), trees = TREES[p.c(1) % 4]; bool isb = p.c(8) % 2; double life = 0.05*(double)(1 + p.c(2) % 200), disc = p.c(3) % 4 == 0 ? 0 : (double)(p.c(3) % 40)*(p.c(3) % 3 ? 0.01 : 0.1), base = (double)(1 + p.c(4) % 20)/20.0; World w(shape,(uint64_t)p.c(5)); int const lc = w.s.lc;
	int room = 0; RandSrc rs; src = &rs; std::unique_ptr<IForest> f; int mg = (int)p.c(7) % 4, limit = mg == 1 ? (int)(1 + p.c(9) % 8) : -1; if(isb) f.reset(bounded(shape,trees,(int)(p.c(6) % 10),life,base,disc,(uint64_t)p.c(10),&room)); else f.reset(coarse(shape,trees,(int)(p.c(6) % 10),life,base,disc,(uint64_t)p.c(10),&room,mg == 0 || mg == 1 ? 0 : mg == 2 ? 2 : 3,limit));
	char const* nm = isb ? "MondrianForest" : "CoarseMondrianForest"; long n = 0, cnt[8] = {0}; int first = -1; double lo[5], up[5];
	auto train = [&](Pt const& q){ bool ok = f->train(q.x,q.l); ++n; cnt[q.l]++; c.sim_time += 1; c.log(ok); if(n == 1){ first = ok; if(ok && room < trees && isb) c.fail("return","%s of %d nodes and %d trees: train() returned true",nm,room,trees); if(!ok && room >= 2*trees) c.fail("return","%s of %d nodes and %d trees: train() returned false",nm,room,trees); } if((int)ok != first) c.fail("return","%s of about %d nodes and %d trees: train() returned %d for sample %ld and %d for the first one",nm,room,trees,ok,n,first);
		for(int k = 0; k < w.s.fc; ++k){ if(n == 1 || q.x[k] < lo[k]) lo[k] = q.x[k]; if(n == 1 || q.x[k] > up[k]) up[k] = q.x[k]; } };
	auto exact = [&](double const* x, char const* when){ if(!first || room >= trees + 2) return; double const D = std::exp(-disc*life); double sc[8]; f->predict(x,sc); int st = 0; for(int k = 0; k < lc; ++k) st += cnt[k] > 0; for(int k = 0; k < lc; ++k){ double e = ((double)cnt[k] - D*(cnt[k] > 0) + D*st*base)/(double)n; if(!close_(sc[k],e,1e-9)) c.fail("dropped","%s: every tree is one leaf that saw %ld of %ld samples with label %d, score %.12g instead of %.12g (%s)",nm,cnt[k],n,k,sc[k],e,when); } c.fault("probe_exact_counts_of_single_leaves"); };
	for(size_t si = 0; si < p.steps.size(); ++si){ Step const& s = p.steps[si]; c.step = (long)si; Rng r(s.rs); rs.set(s.rs ^ 99,s.rm);
		if(s.op == TRAIN || s.op == AGAIN) for(int k = 0; k < (int)(s.arg(0) % 80); ++k){ Pt q = s.op == AGAIN && !w.seen.empty() ? w.seen[(size_t)r.below((int64_t)w.seen.size())] : w.point(r,(int)s.arg(1)); w.remember(q); train(q); if(k % 8 == 0) exact(q.x,"train"); }
		else if(s.op == PREDICT) for(int k = 0; k < (int)(s.arg(0) % 20); ++k){ Pt q = w.point(r,(int)s.arg(1) + k); double sc[8]; int l = f->predict(q.x,sc); if(l < 0 || l >= lc) c.fail("label","%s returned label %d",nm,l); c.log((uint64_t)l); }
		else if(s.op == REPEAT){ Pt q = w.point(r,(int)s.arg(1)); if(s.arg(2) % 2 && !w.seen.empty()) q = w.seen[(size_t)r.below((int64_t)w.seen.size())]; q.l = (int)r.below(lc); long m = n + 4500; c.fault("repeat_until_learned"); for(long k = 0; k < m; ++k) train(q); w.remember(q); double sc[8]; int l = f->predict(q.x,sc); c.log((uint64_t)l); bool rooted = isb ? room >= 1 : room >= 1; if(rooted && l != q.l) c.fail("not-learned","%s of about %d nodes and %d trees: a sample of label %d trained %ld times (after %ld others) is predicted as %d (score %.6g, own %.6g)",nm,room,trees,q.l,m,n-m,l,sc[l],sc[q.l]); exact(q.x,"repeat"); }
		c.state(mix(mix(shape*64 + trees*8 + room,(uint64_t)n),c.h)); }
	if(!f->guards_ok()) c.fail("guard","%s: memory outside the forest was written",nm);
	rand_faults(c,rs); c.fault("tiny_memory_budget"); if(first == 0) c.fault("probe_fewer_nodes_than_trees"); c.nontrivial = n > 2*room; }

// ------------------------------------------------------------------ C14, C27: bounded and coarse forest of the same number of nodes, past exhaustion
static void twin(Plan const& p, Ctx& c){ int const shape = (int)(p.c(0) % 3)*2, trees = TREES[p.c(1) % 4], bud = (int)(p.c(6) % 10); double life = 0.05*(double)(1 + p.c(2) % 200)*(p.c(2) % 5 == 4 ? 100 : 1), disc = (double)(p.c(3) % 40)*(p.c(3) % 3 ? 0.01 : 0.1), base = (double)(1 + p.c(4) % 20)/20.0; World w(shape,(uint64_t)p.c(5)); int const lc = w.s.lc; bool const c27 = p.prop == "C27", unit = c27 && p.c(4) % 3; if(unit) base = 1.0/lc;
	static char const* nm[2] = {"MondrianForest","CoarseMondrianForest"}; int room = 0; RandSrc rs[2]; std::unique_ptr<IForest> f[2]; f[0].reset(bounded(shape,trees,bud,life,base,disc,(uint64_t)p.c(10),&room)); f[1].reset(coarse_twin(shape,trees,bud,life,base,disc,(uint64_t)p.c(10))); long n = 0;
	auto compare = [&](Pt const& q){ double s[2][8]; int l[2]; for(int i = 0; i < 2; ++i){ for(double& v : s[i]) v = 9; l[i] = f[i]->predict(q.x,s[i]); if(l[i] < 0 || l[i] >= lc) c.fail("label","%s returned label %d",nm[i],l[i]); if(c27) distribution(c,nm[i],s[i],l[i],lc,unit); } for(int k = 0; k < lc; ++k) if(!close_(s[0][k],s[1][k],1e-9)) c.fail("disagree","%d nodes, %d trees, after %ld samples: score of label %d is %.17g for %s, %.17g for %s",room,trees,n,k,s[0][k],nm[0],s[1][k],nm[1]); c.logd(s[0][0]); };
	for(size_t si = 0; si < p.steps.size(); ++si){ Step const& s = p.steps[si]; c.step = (long)si; Rng r(s.rs);
		if(s.op == TRAIN || s.op == AGAIN || s.op == REPEAT){ Pt z = w.point(r,(int)s.arg(1)); int m = s.op == REPEAT ? (int)(s.arg(2)*10) : (int)(s.arg(0) % 80); for(int k = 0; k < m; ++k){ Pt q = s.op == REPEAT ? z : s.op == AGAIN && !w.seen.empty() ? w.seen[(size_t)r.below((int64_t)w.seen.size())] : w.point(r,(int)s.arg(1)); w.remember(q); ++n; c.sim_time += 1; bool ok[2]; for(int i = 0; i < 2; ++i){ rs[i].set(mix(s.rs,(uint64_t)k),s.rm); src = &rs[i]; ok[i] = f[i]->train(q.x,q.l); } c.log(ok[0]); if(ok[0] != ok[1]) c.fail("return","%d nodes, %d trees: sample %ld: train() of %s returned %d, of %s %d",room,trees,n,nm[0],ok[0],nm[1],ok[1]); if(k % 4 == 0) compare(q); } }
		for(int k = 0; k < 4; ++k) compare(k % 2 && !w.seen.empty() ? w.seen[(size_t)r.below((int64_t)w.seen.size())] : w.point(r,(int)s.arg(1) + k));
		c.state(mix(mix(shape*64 + trees*8 + room,(uint64_t)n),c.h)); }
	for(int i = 0; i < 2; ++i) if(!f[i]->guards_ok()) c.fail("guard","%s: memory outside the forest was written",nm[i]);
	rand_faults(c,rs[0]); c.fault("tiny_memory_budget"); c.nontrivial = n > 2*room; }

// ------------------------------------------------------------------ C15
static void failing(Plan const& p, Ctx& c){
	int shape = (int)(p.c(0) % 5), trees = p.c(7) % 2 ? 1 : TREES[p.c(1) % 4]; double life = 0.05*(double)(1 + p.c(2) % 200), disc = (double)(p.c(3) % 40)*(p.c(3) % 3 ? 0.01 : 0.1), base = (double)(1 + p.c(4) % 20)/20.0; World w(shape,(uint64_t)p.c(5)); int const lc = w.s.lc;
	RandSrc rs, rt; std::unique_ptr<IForest> f; std::vector<std::unique_ptr<IForest>> tw; long live0 = 0, n = 0, nfail = 0;
	auto kill = [&](){ tw.clear(); if(f){ f.reset(); if(blocks_live != 0) c.fail("leak","%ld blocks were not released by the destructor",blocks_live); } if(double_frees || g_bad) c.fail("double-free","%ld blocks released twice, %ld unknown blocks released",double_frees,g_bad); };
	auto build = [&](){ kill(); src = &rs; f.reset(unbound(shape,trees,life,base,disc)); live0 = blocks_live; for(int i = 0; i < trees; ++i) tw.emplace_back(unbound(shape,1,life,base,disc)); n = 0; w.seen.clear(); };
	build(); Rng pr(p.seed);
	auto scores = [&](Pt const& q, double* s){ src = &rs; int l = f->predict(q.x,s); if(l < 0 || l >= lc) c.fail("label","label %d",l); return l; };
	auto twins = [&](Pt const& q, char const* when){ double s[8], t[8] = {0}, u[8]; scores(q,s); src = &rt; for(auto& x : tw){ x->predict(q.x,u); for(int k = 0; k < lc; ++k) t[k] += u[k]; } for(int k = 0; k < lc; ++k) if(!close_(s[k],t[k]/trees,1e-9)) c.fail("tree-state","%s: score of label %d is %.12g; the same trees one by one give %.12g",when,k,s[k],t[k]/trees); };
	auto train = [&](Pt const& q, uint64_t seed, int rm, long from, long len, int pct){
		bool fault = from >= 0 || pct; std::vector<Pt> old; std::vector<double> before; if(fault && !w.seen.empty()) for(int k = 0; k < 8; ++k){ old.push_back(w.seen[(size_t)pr.below((int64_t)w.seen.size())]); double s[8]; scores(old.back(),s); before.insert(before.end(),s,s+lc); }
		uint64_t drawn = mix(seed,(uint64_t)n + (uint64_t)nfail); long lb = blocks_live; rs.set(drawn,rm); rt.set(drawn,rm); auto arm = [&](){ g_ord = 0; g_from = from; g_len = len; g_pct = pct; g_hash = drawn; }; auto disarm = [&](){ g_from = -1; g_pct = 0; };
		src = &rs; bool threw = false, ok = false; arm(); long fl = forests::failed; try { ok = f->train(q.x,q.l); } catch(std::bad_alloc const&){ threw = true; } disarm(); bool fired = forests::failed > fl; long grown = blocks_live - lb; c.sim_time += 1; c.log(threw); c.log((uint64_t)grown);
		if(threw && !fired) c.fail("exception","train() threw bad_alloc although no allocation failed"); if(!threw && !fired && !ok) c.fail("return","train() returned false without a failed allocation");
		src = &rt; arm(); bool tthrew = false; long tl = blocks_live; int j = 0; try { for(; j < trees; ++j) tw[j]->train(q.x,q.l); } catch(std::bad_alloc const&){ tthrew = true; } disarm(); long tgrown = blocks_live - tl; 
		if(threw != tthrew) c.fail("tree-state","train() %s, the same trees one by one %s",threw ? "threw" : "did not throw",tthrew ? "threw" : "did not throw");
		if(fired && threw){ ++nfail; c.fault("bad_alloc_in_train"); if(trees == 1 && grown > 0) c.fail("leak","the failed call left %ld more blocks than before",grown); if(grown > 2L*trees) c.fail("leak","one call to train() of %d trees left %ld more blocks",trees,grown); if(grown != tgrown) c.fail("leak","the failed call left %ld more blocks, tree by tree it leaves %ld",grown,tgrown);
			if(trees == 1) for(size_t k = 0; k < old.size(); ++k){ double s[8]; scores(old[k],s); for(int z = 0; z < lc; ++z) if(!close_(s[z],before[k*lc+z],1e-12)) c.fail("forgotten","a failed allocation changed the score of a trained point (label %d) from %.12g to %.12g",z,before[k*lc+z],s[z]); }
			return false; }
		w.remember(q); ++n; return true; };
	for(size_t si = 0; si < p.steps.size(); ++si){ Step const& s = p.steps[si]; c.step = (long)si; Rng r(s.rs);
		auto next = [&](int kind){ return kind % 8 == 7 && !w.seen.empty() ? w.seen[(size_t)r.below((int64_t)w.seen.size())] : w.point(r,kind); };
		if(s.op == TRAIN) for(int k = 0; k < (int)(s.arg(0) % 60); ++k) train(next((int)s.arg(1)),s.rs,s.rm,-1,0,0);
		else if(s.op == FAILK) for(int k = 0; k < (int)(s.arg(0) % 30); ++k) train(next((int)s.arg(1)),s.rs,s.rm,s.arg(2) % (2*trees+1),1 + s.arg(3) % 12,0);
		else if(s.op == FAILRND) for(int k = 0; k < (int)(s.arg(0) % 30); ++k) train(next((int)s.arg(1)),s.rs,s.rm,-1,0,(int)(1 + s.arg(2) % 99));
		else if(s.op == REPEAT){ Pt q = w.point(r,(int)s.arg(1)); q.l = (int)r.below(lc); long m = n + 4500; for(long k = 0; k < m; ++k) if(!train(q,s.rs,s.rm,-1,0,0)) c.fail("return","train() failed without a fault"); double sc[8]; int l = scores(q,sc); if(l != q.l) c.fail("not-learned","after the faults stopped, a sample of label %d trained %ld times is predicted as %d",q.l,m,l); c.fault("probe_learned_after_faults"); }
		else if(s.op == REBUILD){ build(); c.fault("destroyed_and_rebuilt"); }
		for(int k = 0; k < 3; ++k){ Pt q = k && !w.seen.empty() ? w.seen[(size_t)r.below((int64_t)w.seen.size())] : w.point(r,k); twins(q,"after a step"); double sc[8]; c.log((uint64_t)scores(q,sc)); c.logd(sc[0]); }
		if(double_frees || g_bad) c.fail("double-free","%ld blocks released twice, %ld unknown blocks released",double_frees,g_bad);
		c.state(mix(mix(shape*8 + trees,(uint64_t)blocks_live),mix((uint64_t)n,(uint64_t)nfail))); }
	kill(); rand_faults(c,rs); c.nontrivial = nfail > 0; }

HarnessDef sim::harness(){ HarnessDef h; h.name = "mondrian"; h.ops = {"train","predict","again","repeat","sync","failk","failrnd","rebuild"};
	h.gen = [](Rng& r, Plan& p, std::string const& prop, bool th){ bool calm = prop == "C26" || r.chance(0.5); int bad = (int)r.below(RM_COUNT); auto rm = [&](){ return calm ? 0 : r.chance(0.5) ? bad : (int)r.below(RM_COUNT); }; int n = (int)r.range(2,th ? 30 : 12);
		p.cfg = { r.below(5), r.below(4), r.below(200), r.below(40), r.below(20), (int64_t)(r.u64() >> 40), prop == "C14" ? r.below(10) : r.below(8), r.below(4), r.below(2), r.below(8), r.below(6), r.below(3) };
		if(prop == "C13" || prop == "C26" || (prop == "C27" && p.cfg[11])) for(int i = 0; i < n; ++i){ int k = (int)r.below(10); if(k < 5) p.add(TRAIN,{r.range(1,40),r.below(6)},r.u64() >> 16,rm()); else if(k < 6) p.add(AGAIN,{r.range(1,20)},r.u64() >> 16,rm()); else p.add(PREDICT,{r.range(1,12),r.below(6)},r.u64() >> 16,rm()); }
		else if(prop == "C14" || prop == "C27"){ int rep = 0; for(int i = 0; i < n; ++i){ int k = (int)r.below(10); if(k < 5) p.add(TRAIN,{r.range(1,40),r.below(6)},r.u64() >> 16,rm()); else if(k < 6) p.add(AGAIN,{r.range(1,20)},r.u64() >> 16,rm()); else if(k < 8) p.add(PREDICT,{r.range(1,8),r.below(6)},r.u64() >> 16,rm()); else if(rep < 2){ ++rep; p.add(REPEAT,{0,r.below(6),r.below(3)},r.u64() >> 16,rm()); } } if(!rep) p.add(REPEAT,{0,r.below(6),0},r.u64() >> 16,rm()); }
		else { int rep = 0; for(int i = 0; i < n; ++i){ int k = (int)r.below(12); if(k < 3) p.add(TRAIN,{r.range(1,30),r.below(8)},r.u64() >> 16,rm()); else if(k < 7) p.add(FAILK,{r.range(1,20),r.below(8),r.below(11),r.pick({0,0,0,1,11})},r.u64() >> 16,rm()); else if(k < 10) p.add(FAILRND,{r.range(1,20),r.below(8),r.pick({5,30,60,90})},r.u64() >> 16,rm()); else if(k == 10 && rep < 1){ ++rep; p.add(REPEAT,{0,r.below(6)},r.u64() >> 16,rm()); } else p.add(REBUILD,{}); } } };
	h.exec = [](Plan const& p, Ctx& c){ Plan q = p; for(auto& v : q.cfg) v = std::llabs(v); q.cfg.resize(12); bool c27 = p.prop == "C27"; if(p.prop == "C13" || p.prop == "C26" || (c27 && q.cfg[11])) agree(q,c); else if((p.prop == "C14" && q.cfg[11] == 0) || c27) twin(q,c); else if(p.prop == "C14") exhausted(q,c); else failing(q,c); };
	return h; }
