// C01, C02, C28: CuckooFilter under random-source faults, adversarial hashing, overload and crash/restore.
#define SIM_MAIN
#include "prelude.hpp"
#include "cuckoo_filter.hpp"
#include "core.hpp"
using namespace sim;

static RandSrc g_rnd; // half-open source [0,1[
static double rnd(){ return g_rnd.next(); }
static const int U = 96; // element universe
static int t_hash[U]; static int t_fp[U]; static int t_fph[256];
struct Funct {
	static unsigned char fingerprint(int const* e){ return (unsigned char)t_fp[*e % U]; }
	static unsigned int hash(int const* e){ return (unsigned)t_hash[*e % U]; }
	static unsigned int hash(unsigned char fp){ return (unsigned)t_fph[fp]; }
};
enum Op { ADD, REM, LOOK, CLEAR, CKPT, CRASH, BURST, AUDIT, FILL, CHURN };

// The reference model: a multiset of (fingerprint, unordered pair of buckets).
struct Model {
	typedef std::tuple<int,int,int> K;
	std::map<K,int> m; int total = 0;
	static K key(int e){ int f = t_fp[e], a = t_hash[e], b = a ^ t_fph[f]; return K(f,std::min(a,b),std::max(a,b)); }
	int n(int e) const { auto i = m.find(key(e)); return i == m.end() ? 0 : i->second; }
	void add(int e){ m[key(e)]++; ++total; }
	bool rem(int e){ auto i = m.find(key(e)); if(i == m.end()) return false; if(--i->second == 0) m.erase(i); --total; return true; }
	int touching(int b) const { int s = 0; for(auto& k : m) if(std::get<1>(k.first) == b || std::get<2>(k.first) == b) s += k.second; return s; }
	void clear(){ m.clear(); total = 0; }
	uint64_t sig() const { uint64_t h = 7; for(auto& k : m) h = mix(h, ((uint64_t)std::get<0>(k.first) << 32) ^ (std::get<1>(k.first) << 16) ^ (std::get<2>(k.first) << 8) ^ k.second); return h; }
};

template<int BC, int BS, int ES, int EV> void run(Plan const& p, Ctx& c){
	typedef CuckooFilter<int,BC,BS,ES,Funct,rnd,EV> F;
	bool const exact = p.prop == "C02";
	// hash family of the run
	Rng hr((uint64_t)p.c(1)); int style = (int)(p.c(2) % 5); int const FM = 1 << ES;
	for(int i = 0; i < U; ++i){
		int h = (int)hr.below(BC), f = (int)hr.below(FM);
		if(style == 1) h = 0; // everything hashes to one bucket
		if(style == 2) f = (int)hr.below(3); // few fingerprints
		if(style == 3){ h = i % BC; f = i % FM; }
		if(style == 4){ h = (int)hr.below(2) % BC; f = (int)hr.below(4); }
		f %= FM; if(f == EV) f = (f + 1) % FM;
		t_hash[i] = h; t_fp[i] = f; }
	for(int i = 0; i < 256; ++i){ t_fph[i] = (int)hr.below(BC); if(style == 1 && (i & 1)) t_fph[i] = 0; }
	Placed<F> live, back; bool has_back = false; Model m, mb; std::vector<int> acked[2]; // per element count of live acknowledged adds
	std::vector<int> cnt(U,0), cntb(U,0);
	live.make((uint64_t)p.c(3)); g_rnd = RandSrc();
	int refused = 0, kicked = 0;
	auto check_all = [&](int upto){ // every acknowledged element is found; (C02) answers match the multiset
		for(int e = 0; e < U; ++e){ bool l = live->lookup(e);
			if(!exact && cnt[e] > 0 && !l) c.fail("lost-element","acknowledged element %d (fp %d, buckets %d/%d) is not found; %d stored of %d entries",e,t_fp[e],t_hash[e],t_hash[e]^t_fph[t_fp[e]],m.total,BC*BS);
			if(exact && l != (m.n(e) > 0)) c.fail(l ? "phantom" : "lost-copy","lookup(%d) = %d but %d copies of its fingerprint are stored",e,(int)l,m.n(e));
			c.log(l); }
		(void)upto; };
	auto audit = [&](){ // take a copy apart: exactly m copies of every pair come out
		if(!exact) return; F tmp(*live.obj); Model mm = m; std::set<Model::K> seen;
		for(int e = 0; e < U; ++e){ if(!seen.insert(Model::key(e)).second) continue;
			int want = mm.n(e), got = 0; while(got <= want && tmp.lookup(e)){ tmp.remove(e); ++got; if(got > BC*BS + 1) break; }
			if(got != want) c.fail("copies","%s copies of fingerprint %d came out for element %d: expected %d, got %d",got > want ? "too many" : "too few",t_fp[e],e,want,got);
			c.log(got); } };
	for(size_t si = 0; si < p.steps.size(); ++si){ Step const& s = p.steps[si]; c.step = (long)si; c.sim_time += 1; g_rnd.mode = 0; g_rnd.r.reset(s.rs); g_rnd.mode = s.rm % RM_COUNT;
		int e = (int)(((s.arg(0) % U) + U) % U); bool big = false;
		auto do_add = [&](int e){
			uint64_t d0 = g_rnd.n; bool bytemp = (e & 1); bool r = bytemp ? live->add(&e) : live->add(e); c.log(r); uint64_t used = g_rnd.n - d0; if(used > 1) ++kicked;
			if(r){
				m.add(e); cnt[e]++;
				if(exact && m.total > BC*BS) c.fail("over-capacity","%d elements acknowledged in %d entries",m.total,BC*BS);
				if(exact){ int h1 = t_hash[e], h2 = h1 ^ t_fph[t_fp[e]]; if(m.n(e) > BS*(h1 == h2 ? 1 : 2)) c.fail("over-capacity","%d copies of one fingerprint in its buckets",m.n(e)); }
			} else { ++refused; c.fault("filter_full_add_refused");
				if(exact){ int h1 = t_hash[e], h2 = h1 ^ t_fph[t_fp[e]];
					for(int h : {h1,h2}) if(m.touching(h) < BS) c.fail("refused-with-space","add(%d) refused although at most %d of the %d entries of bucket %d can be used",e,m.touching(h),BS,h); } }
			c.note("step %zu add %d -> %d (draws %llu)",si,e,(int)r,(unsigned long long)used); };
		switch(s.op){
			case ADD: do_add(e); break;
			case BURST: { int n = (int)(s.arg(1) % 200); for(int k = 0; k < n; ++k) do_add((int)((e + (int64_t)k * (s.arg(2) | 1)) % U)); big = true; c.fault("overload_burst"); break; }
			case REM:
				if(exact){ // the multiset decides: one copy of the pair leaves, none if there is none (also for an element that was never added itself)
					bool had = m.rem(e); if(had && cnt[e] == 0) c.fault("remove_of_alias"); if(!had) c.fault("remove_of_absent"); if(cnt[e] > 0) cnt[e]--;
					if(e & 1) live->remove(e); else live->remove(&e); c.note("step %zu remove %d (stored: %d)",si,e,(int)had); }
				else if(cnt[e] > 0){ if(e & 1) live->remove(e); else live->remove(&e); m.rem(e); cnt[e]--; c.note("step %zu remove %d",si,e); }
				break;
			case LOOK: { bool l = (e & 1) ? live->lookup(&e) : live->lookup(e); c.log(l); if(!exact && cnt[e] > 0 && !l) c.fail("lost-element","acknowledged element %d is not found",e); if(exact && l != (m.n(e) > 0)) c.fail("phantom","lookup(%d) = %d, model %d",e,(int)l,m.n(e)); break; }
			case CLEAR: live->clear(); m.clear(); cnt.assign(U,0); c.fault("clear"); big = true; break;
			case CKPT: back.copy_from(*live.obj,mix64(s.rs)|4); mb = m; cntb = cnt; has_back = true; break;
			case CRASH: // the device dies at this point; the checkpoint (or an empty filter) comes back in dirty memory
				c.fault(has_back ? "crash_restore_checkpoint" : "crash_restart_empty");
				live.destroy(); if(has_back){ live.copy_from(*back.obj,mix64(s.rs)|4); m = mb; cnt = cntb; } else { live.make(mix64(s.rs)|4); m.clear(); cnt.assign(U,0); } big = true; break;
			case AUDIT: audit(); break; }
		if(!live.guards_ok()) c.fail("guard","memory outside the filter was written");
		if(big || U*si < 4000 || si % 8 == 0) check_all(-1);
		c.state(mix(mix(m.sig(),(uint64_t)p.c(0)),(uint64_t)p.c(1))); }
	check_all(-1); audit(); rand_faults(c,g_rnd);
	c.nontrivial = m.total > 0 && (kicked > 0 || refused > 0);
	if(kicked) c.fault("probe_eviction_chain",kicked); }

// ------------------------------------------------------------------ C28: ensembles of filters filled from well-spread hashes
static uint64_t g_spread; static int g_fph[256];
template<int BC, int ES, int EV> struct Spread {
	static unsigned char fingerprint(int const* e){ int f = (int)((mix(g_spread,(uint64_t)*e*2) >> 20) % ((1 << ES) - 1)); return (unsigned char)(f >= EV ? f + 1 : f); }
	static unsigned int hash(int const* e){ return (unsigned)((mix(g_spread,(uint64_t)*e*2 + 1) >> 20) % BC); }
	static unsigned int hash(unsigned char fp){ return (unsigned)g_fph[fp]; } };
template<int BC, int BS, int ES, int EV> void load(Plan const& p, Ctx& c){
	typedef Spread<BC,ES,EV> H; typedef CuckooFilter<int,BC,BS,ES,H,rnd,EV> F; int const cap = BC*BS; double const want = BS >= 8 ? 0.95 : 0.90; Placed<F> live, back; live.make((uint64_t)p.c(1)); g_rnd = RandSrc(); int filled = 0;
	for(size_t si = 0; si < p.steps.size(); ++si){ Step const& s = p.steps[si]; c.step = (long)si; Rng w(s.rs); g_rnd.mode = 0; g_rnd.r.reset(mix(s.rs,1));
		auto fresh = [&](){ g_spread = w.u64(); for(int& h : g_fph) h = 1 + (int)w.below(BC-1); if(w.chance(0.5)) live->clear(); else { live.destroy(); live.make(w.u64()|4); } };
		if(s.op == FILL){ int N = (int)std::min<int64_t>(200,std::max<int64_t>(20,s.arg(0))); double sum = 0;
			for(int i = 0; i < N; ++i){ fresh(); int n = 0; while(n <= cap && live->add(n)) ++n; if(n > cap) c.fail("over-capacity","%d elements in %d entries",n,cap); sum += n; c.log((uint64_t)n); ++filled; c.sim_time += n; if(n*10 < cap*6) c.fail("early-refusal","a filter of %d buckets of %d refused its element number %d of %d",BC,BS,n+1,cap); }
			c.fault("filters_filled",N); c.state(mix((uint64_t)sum,(uint64_t)p.c(0))); if(sum < want*N*cap) c.fail("load","%d filters of %d buckets of %d took %.1f%% of their capacity on average before they refused an element, expected %.0f%%",N,BC,BS,100*sum/N/cap,100*want); }
		else if(s.op == CHURN){ fresh(); std::vector<int> in, inb; int next = 0, nadd = 0, nref = 0; bool hb = false; int const top = cap*3/4; int ops = (int)std::min<int64_t>(40000,std::max<int64_t>(10,s.arg(0)));
			for(int k = 0; k < ops; ++k){ c.sim_time += 1;
				if(w.chance(0.001)){ back.copy_from(*live.obj,w.u64()|4); inb = in; hb = true; } else if(hb && w.chance(0.001)){ live.destroy(); live.copy_from(*back.obj,w.u64()|4); in = inb; c.fault("crash_restore_checkpoint"); }
				if((int)in.size() < top && w.chance(0.9)){ ++nadd; if(live->add(next)) in.push_back(next); else ++nref; ++next; }
				else if(!in.empty()){ size_t j = (size_t)w.below((int64_t)in.size()); live->remove(in[j]); in[j] = in.back(); in.pop_back(); } }
			c.log((uint64_t)nref); c.fault("adds_under_churn",nadd); c.state(mix((uint64_t)in.size(),mix((uint64_t)nref,s.rs))); ++filled;
			if(nref > 3 + nadd/100) c.fail("churn","%d of %d elements were refused by a filter of %d buckets of %d that was never filled beyond 75%%",nref,nadd,BC,BS); for(int e : in) if(!live->lookup(e)) c.fail("lost-element","acknowledged element %d is not found",e); }
		if(!live.guards_ok()) c.fail("guard","memory outside the filter was written"); }
	c.nontrivial = filled > 0; }
struct LCfg { void (*f)(Plan const&, Ctx&); };
static LCfg const lcfgs[] = { {load<64,4,8,0>}, {load<64,8,8,0>}, {load<256,4,8,7>}, {load<128,5,7,0>}, {load<64,6,6,63>}, {load<512,4,8,255>} };
static const int NL = sizeof(lcfgs)/sizeof(lcfgs[0]);
struct Cfg { void (*f)(Plan const&, Ctx&); int cap, bs; };
static Cfg const cfgs[] = { {run<1,1,3,0>,1,1}, {run<1,4,8,0>,4,4}, {run<2,1,3,0>,2,1}, {run<2,4,8,17>,8,4}, {run<4,2,4,0>,8,2}, {run<4,2,5,31>,8,2}, {run<8,4,8,0>,32,4}, {run<16,3,7,5>,48,3}, {run<8,1,8,255>,8,1}, {run<64,4,8,0>,256,4}, {run<128,2,6,0>,256,2}, {run<4,8,8,1>,32,8}, {run<2,2,1,0>,4,2}, {run<16,2,8,128>,32,2} };
static const int NC = sizeof(cfgs)/sizeof(cfgs[0]);
HarnessDef sim::harness(){ HarnessDef h; h.name = "cuckoo"; h.ops = {"add","remove","lookup","clear","ckpt","crash","burst","audit","fill","churn"};
	h.gen = [](Rng& r, Plan& p, std::string const& prop, bool th){
		if(prop == "C28"){ p.cfg = { r.below(NL), r.below(6) }; int n = (int)r.range(1,th ? 5 : 3); for(int i = 0; i < n; ++i){ if(r.chance(0.5)) p.add(FILL,{20},r.u64() >> 16); else p.add(CHURN,{r.range(1000,th ? 30000 : 8000)},r.u64() >> 16); } return; }
		int ci = (int)r.below(NC); p.cfg = { ci, (int64_t)(r.u64() >> 40), r.chance(0.5) ? 0 : r.below(5), r.below(6) };
		int cap = cfgs[ci].cap; int n = (int)r.range(5, th ? 400 : 140); int uni = (int)r.range(2,U); double rem = r.uni()*0.5, clr = r.chance(0.3) ? 0.05 : 0.004, cr = r.chance(0.4) ? 0.04 : 0;
		int fm = r.chance(0.4) ? 0 : (int)r.below(RM_COUNT); bool mixed = r.chance(0.5);
		for(int i = 0; i < n; ++i){ int rm = mixed ? (r.chance(0.6) ? 0 : (int)r.below(RM_COUNT)) : fm; uint64_t rs = r.u64() >> 16; double d = r.uni(); int64_t e = r.below(uni);
			if(d < clr) p.add(CLEAR,{},rs,rm); else if(d < clr + cr) p.add(r.chance(0.6) ? CKPT : CRASH,{},rs,rm);
			else if(r.chance(0.05)) p.add(BURST,{e,r.range(1,std::min(60,cap+4)),r.below(96)},rs,rm); else if(r.chance(0.02)) p.add(AUDIT,{},rs,rm);
			else if(r.chance(rem)) p.add(REM,{e},rs,rm); else if(r.chance(0.1)) p.add(LOOK,{e},rs,rm); else p.add(ADD,{e},rs,rm); } };
	h.exec = [](Plan const& p, Ctx& c){ if(p.prop == "C28"){ lcfgs[((p.c(0) % NL) + NL) % NL].f(p,c); return; } cfgs[((p.c(0) % NC) + NC) % NC].f(p,c); };
	return h; }
