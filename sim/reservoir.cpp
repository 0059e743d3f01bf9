// C04, C05: ReservoirSampling and ExponentialReservoirSampling. C05, C06, C07: ChainedReservoirSampling.
#define SIM_MAIN
#include "prelude.hpp"
#include "reservoir_sampling.hpp"
#include "chained_reservoir.hpp"
#include "core.hpp"
using namespace sim;
static RandSrc g_rnd;
struct Fn { static double random(){ return g_rnd.next(); } static int floor(double d){ return (int)std::floor(d); } };
struct El { int64_t id; uint64_t chk; int32_t pad; El(): id(-7), chk(0), pad(0){} explicit El(int64_t i): id(i), chk(mix64((uint64_t)i + 99)), pad((int)(i*3)){} bool ok() const { return chk == mix64((uint64_t)id + 99) && pad == (int)(id*3); } bool operator==(El const& o) const { return id == o.id && chk == o.chk && pad == o.pad; } };
enum Op { OFFER, INDEX, BURST, CKPT, CRASH, ENSEMBLE, OBS, OBS_FREE, MFAIL };

// ------------------------------------------------------------------ C04
template<class R, unsigned S, bool EXPO> void slots(Plan const& p, Ctx& c){
	Placed<R> live, back; std::vector<El> sh(S), shb; std::vector<char> used(S,0), usedb; uint64_t n = 0, nb = 0; unsigned fill = 0, fillb = 0; bool hb = false;
	live.make((uint64_t)p.c(1)); g_rnd = RandSrc(); g_rnd.closed = true; int full = 0, rej = 0;
	bool light = false; auto offer = [&](bool viaindex, int64_t id){
		El e(id); int idx; bool wasfull = EXPO ? fill == S : n >= S;
		if(viaindex){ idx = live->sample_index(); if(idx >= 0 && idx < (int)S) (*live.obj)[idx] = e; } else idx = live->add(e);
		c.log((uint64_t)idx); c.note("offer %lld -> %d",(long long)id,idx);
		if(EXPO ? (idx < 0 || idx >= (int)S) : (idx < -1 || idx >= (int)S)) c.fail("bad-slot","offer %llu returned slot %d of %u",(unsigned long long)n,idx,S);
		if(idx >= 0){
			if((unsigned)idx > fill) c.fail("gap","slot %d used while only %u slots are filled",idx,fill);
			if((unsigned)idx == fill) ++fill;
			else if(!EXPO && !wasfull) c.fail("overwrite","slot %d overwritten before the sample is full (%u of %u)",idx,fill,S);
			sh[idx] = e; used[idx] = 1; if(wasfull) ++full;
		} else { if(!wasfull) c.fail("rejected-while-filling","offer %llu refused while the sample is not full",(unsigned long long)n); ++rej; }
		++n;
		if(live->count() != (EXPO ? fill : (unsigned)n)) c.fail("count","count() is %u, expected %llu",live->count(),EXPO ? (unsigned long long)fill : (unsigned long long)n);
		if(light && n % 997 != 0){ if(idx >= 0 && !((*live.obj)[idx] == e)) c.fail("slot-content","slot %d does not hold the element just added",idx); return; }
		R const& cr = *live.obj; for(unsigned i = 0; i < S; ++i) if(used[i] && !(cr[i] == sh[i])) c.fail("slot-content","slot %u holds element %lld, expected %lld",i,(long long)cr[i].id,(long long)sh[i].id);
		if(!live.guards_ok()) c.fail("guard","memory outside the reservoir was written"); };
	for(size_t si = 0; si < p.steps.size(); ++si){ Step const& s = p.steps[si]; c.step = (long)si; c.sim_time += 1; g_rnd.mode = s.rm % RM_COUNT; g_rnd.r.reset(s.rs);
		switch(s.op){
			case OFFER: offer(false,(int64_t)si*1000); break; case INDEX: offer(true,(int64_t)si*1000); break;
			case BURST: for(int k = 0; k < (int)(s.arg(0) % 400); ++k) offer(k & 1,(int64_t)si*1000 + k); if(s.arg(1) > 0){ g_rnd.mode = 0; light = true; for(int k = 0; k < (int)(s.arg(1) % 140000); ++k) offer(k & 1,(int64_t)si*1000000 + k); c.fault("long_stream"); light = false; } break;
			case CKPT: back.copy_from(*live.obj,mix64(s.rs)|4); shb = sh; usedb = used; nb = n; fillb = fill; hb = true; break;
			case CRASH: c.fault("crash_restart"); live.destroy(); if(hb){ live.copy_from(*back.obj,mix64(s.rs)|4); sh = shb; used = usedb; n = nb; fill = fillb; } else { live.make(mix64(s.rs)|4); used.assign(S,0); n = 0; fill = 0; } break; }
		uint64_t st = mix(p.c(0),fill); for(unsigned i = 0; i < S && i < fill; ++i) st = mix(st,(uint64_t)sh[i].id); c.state(st); }
	rand_faults(c,g_rnd); c.nontrivial = full > 0; if(rej) c.fault("probe_rejected",rej); }

// ------------------------------------------------------------------ C05 (ensembles of complete histories, one uniform source)
static void ztest(Ctx& c, char const* what, double got, double N, double p, int a, int b){
	if(p <= 0 || p >= 1 - 1e-12){ if((p <= 0 && got != 0) || (p >= 1 - 1e-12 && got != N)) c.fail("biased","%s (%d of %d): %.0f of %.0f histories, expected probability %.3f",what,a,b,got,N,p); return; }
	double sd = std::sqrt(N*p*(1-p)); if(N*p < 30 || N*(1-p) < 30) return; if(std::fabs(got - N*p) > 6.5*sd + 2) c.fail("biased","%s (%d of %d): %.0f of %.0f histories, expected %.1f +- %.1f",what,a,b,got,N,N*p,sd); }
static void chi2(Ctx& c, char const* what, std::vector<double> const& o, double N, int a){
	double e = N / o.size(); if(e < 20 || o.size() < 2) return; double x = 0; for(double v : o) x += (v-e)*(v-e)/e; double df = o.size() - 1;
	if(x > df + 8*std::sqrt(2*df) + 30) c.fail("not-uniform","%s (%d): chi2 %.1f with %d degrees of freedom over %.0f histories",what,a,x,(int)df,N); }
static double choose(int n, int k){ double r = 1; for(int i = 1; i <= k; ++i) r = r*(n-k+i)/i; return r; }
struct Mal { static size_t limit, count; static std::vector<unsigned char*> blocks; static std::vector<size_t> sizes; static uint64_t fails;
	static const size_t G = 64;
	static void* alloc(size_t n){ ++count; if(count > limit){ ++fails; return nullptr; } unsigned char* b = (unsigned char*)::malloc(n + 2*G); memset(b,0xC7,n+2*G); fill_garbage(b+G,n,77+count); blocks.push_back(b); sizes.push_back(n); return b+G; }
	static bool guards(){ for(size_t i = 0; i < blocks.size(); ++i){ for(size_t k = 0; k < G; ++k) if(blocks[i][k] != 0xC7 || blocks[i][G+sizes[i]+k] != 0xC7) return false; } return true; }
	static void drop(){ for(auto b : blocks) ::free(b); blocks.clear(); sizes.clear(); count = 0; limit = (size_t)-1; } };
size_t Mal::limit = (size_t)-1, Mal::count = 0; uint64_t Mal::fails = 0; std::vector<unsigned char*> Mal::blocks; std::vector<size_t> Mal::sizes;
struct CFn { static double random(){ return g_rnd.next(); } static void* malloc(size_t n){ return Mal::alloc(n); } };
template<class R, unsigned S, int KIND> void fair(Plan const& p, Ctx& c){ // KIND 0 reservoir, 1 exponential, 2 chained
	g_rnd = RandSrc();
	for(size_t si = 0; si < p.steps.size(); ++si){ Step const& s = p.steps[si]; c.step = (long)si;
		g_rnd.r.reset(s.rs); g_rnd.mode = 0; int n = (int)std::max<int64_t>(S, S + ((s.arg(0) % 60 + 60) % 60)); int N = (int)std::min<int64_t>(200000,std::max<int64_t>(1000,s.arg(1)));
		std::vector<double> incl(n,0), slot_of(n*S,0), enter(n,0), append(S+1,0), atfill(S+1,0); std::map<std::vector<int>,double> sets; bool dosets = KIND == 0 && choose(n,S) <= 60 && n > (int)S; std::vector<double> succ(3*S,0);
		for(int h = 0; h < N; ++h){ R r; unsigned fill = 0;
			std::vector<int64_t> prev(S,-1);
			for(int i = 0; i < n; ++i){
				int idx;
				if constexpr (KIND == 2){ r.add((int64_t)i,(unsigned)(i+1)); idx = -1; for(unsigned k = 0; k < S; ++k) if(k <= (unsigned)i && r[k] == i){ idx = (int)k; if(i >= (int)S) break; } }
				else idx = r.add((int64_t)i);
				if(KIND == 1){ atfill[fill]++; if(idx == (int)fill && fill < S){ append[fill]++; } }
				if(idx >= (int)S) c.fail("bad-slot","slot %d",idx);
				bool repl = KIND == 1 ? (unsigned)idx < fill && fill == S : i >= (int)S;
				if(idx >= 0 && (unsigned)idx == fill && fill < S) ++fill;
				if(idx >= 0 && repl){ enter[i]++; slot_of[i*S+idx]++; } }
			std::vector<int> in; for(unsigned k = 0; k < std::min<unsigned>(S,fill); ++k){ int64_t v = r[k]; if(v < 0 || v >= n) c.fail("not-offered","slot %u holds %lld",k,(long long)v); in.push_back((int)v); }
			std::sort(in.begin(),in.end()); for(size_t k = 0; k < in.size(); ++k){ if(k && in[k] == in[k-1]) c.fail("duplicate","element %d occupies two slots",in[k]); incl[in[k]]++; }
			if(dosets) sets[in]++;
			if constexpr (KIND == 2){ int64_t at = n; int const k = h % (int)S; for(int hop = 0; hop < 3; ++hop){ int64_t e = r[k]; while(at <= e + (int)S){ r.add(at,(unsigned)(at+1)); ++at; } if(r[k] != e) break; r.obsolete((unsigned)(e+1)); int64_t g = r[k]; if(g <= e || g > e + (int)S) c.fail("successor","element %lld of a reservoir of %u was replaced by element %lld when it expired",(long long)e,S,(long long)g); succ[(size_t)hop*S + (size_t)(g-e-1)]++; } Mal::drop(); } }
		c.sim_time += (double)N*n; for(double v : incl) c.logd(v); c.state(mix((uint64_t)incl[0],mix(n,S*4+KIND)));
		if(KIND != 1) for(int i = 0; i < n; ++i) ztest(c,"element kept in the sample",incl[i],N,(double)S/n,i,n);
		for(int i = 0; i < n; ++i){ std::vector<double> o(slot_of.begin()+i*S,slot_of.begin()+(i+1)*S); chi2(c,"slot replaced by an entering element",o,enter[i],i); if(KIND != 1 && i >= (int)S) ztest(c,"element accepted when offered",enter[i],N,(double)S/(i+1),i,n); }
		if(KIND == 2) for(int hop = 0; hop < 3; ++hop){ std::vector<double> o(succ.begin()+hop*S,succ.begin()+(hop+1)*S); double m = 0; for(double v : o) m += v; chi2(c,"distance to the element that replaces an expired one",o,m,hop); }
		if(KIND == 1) for(unsigned f = 0; f < S; ++f) ztest(c,"appended instead of replaced while filling",append[f],atfill[f],1.0 - (double)f/S,(int)f,(int)S);
		if(dosets){ std::vector<double> o; for(auto& k : sets) o.push_back(k.second); while((double)o.size() < choose(n,S) - 0.5) o.push_back(0); chi2(c,"set of kept elements",o,N,n); }
		c.fault("histories",N); }
	rand_faults(c,g_rnd); c.nontrivial = !p.steps.empty(); }

// ------------------------------------------------------------------ C06, C07
template<unsigned S> void chain(Plan const& p, Ctx& c){
	typedef ChainedReservoirSampling<El,S,CFn> R; bool const c6 = p.prop == "C06";
	g_rnd = RandSrc(); g_rnd.closed = true; Mal::drop(); Placed<R> live; live.make((uint64_t)p.c(1));
	std::vector<unsigned> ts; unsigned now = (unsigned)std::max<int64_t>(1,p.c(2)); std::vector<int64_t> shown(S,-1);
	unsigned legit_t = 0; size_t W = 0, newer_from = 0; bool limited = false; int moved = 0, nlegit = 0, nbig = 0; bool stopped = false; size_t lasti = 0;
	auto look = [&](char const* op, long lone, bool isobs, unsigned t){
		size_t nfilled = std::min<size_t>(S,ts.size());
		R const& cr = *live.obj;
		for(size_t k = 0; k < nfilled; ++k){ El const& e = cr[(int)k]; int64_t was = shown[k];
			if(!e.ok() || e.id < 0 || e.id >= (int64_t)ts.size()) c.fail("not-offered","%s: slot %zu shows an element that was never offered (id %lld)",op,k,(long long)e.id);
			c.log((uint64_t)e.id);
			if(!c6){
				if(e.id < was) c.fail("backwards","%s: slot %zu went back from element %lld to %lld",op,k,(long long)was,(long long)e.id);
				if(!isobs && e.id != was && e.id != lone) c.fail("unrelated-change","%s: slot %zu changed from element %lld to %lld",op,k,(long long)was,(long long)e.id);
				if(isobs && e.id != was){ ++moved; if(ts[was] > t) c.fail("current-moved","obsolete(%u): slot %zu showed element %lld of time %u and changed",t,k,(long long)was,ts[was]); if(ts[e.id] <= t) c.fail("moved-to-obsolete","obsolete(%u): slot %zu moved to element %lld of time %u",t,k,(long long)e.id,ts[e.id]); } }
			shown[k] = e.id; }
		if(!live.guards_ok() || !Mal::guards()) c.fail("guard","%s: memory outside the reservoir was written",op); };
	auto newer = [&](){ return ts.size() - newer_from; };
	auto account = [&](){ W = std::max(W,newer()); if(!c6 && Mal::count - Mal::fails > (size_t)S * (W + 1)) c.fail("memory","%zu chain cells allocated for %u slots and a window of at most %zu elements (%zu offered)",Mal::count,S,W,ts.size()); };
	auto offer = [&](unsigned dt){
		if(ts.size() && now > 4294967295u - 4000u) dt = 0;
		if(ts.size()) now += dt; El e((int64_t)ts.size()); ts.push_back(now); 
		if(sigsetjmp(g_failstop_jmp,1)){ stopped = true; c.fault("failstop_on_alloc_failure"); if(!live.guards_ok() || !Mal::guards()) c.fail("guard","memory outside the reservoir was written before it stopped"); return; }
		g_failstop_armed = limited; live->add(e,now); g_failstop_armed = false;
		if(ts.size() <= S) shown[ts.size()-1] = (int64_t)ts.size()-1;
		look("add",(long)ts.size()-1,false,0); account(); };
	auto obsolete = [&](unsigned t){
		bool legit = ts.size() > S && ts[ts.size()-S] > t;
		W = std::max(W,newer()); if(sigsetjmp(g_failstop_jmp,1)){ stopped = true; return; }
		g_failstop_armed = limited; live->obsolete(t); g_failstop_armed = false; look("obsolete",-1,true,t); c.note("obsolete %u legit %d",t,(int)legit);
		if(legit){ ++nlegit; if(legit_t < t){ legit_t = t; while(newer_from < ts.size() && ts[newer_from] <= t) ++newer_from; }
			if(c6) for(unsigned k = 0; k < S; ++k) if(ts[shown[k]] <= t) c.fail("obsolete-kept","after obsolete(%u) slot %u still shows element %lld of time %u although the last %u offers are newer",t,k,(long long)shown[k],ts[shown[k]],S); }
		else if(ts.size() > S) { ++nbig; } };
	for(size_t si = 0; si < p.steps.size() && !stopped; ++si){ Step const& s = p.steps[si]; c.step = (long)si; g_rnd.mode = s.rm % RM_COUNT; g_rnd.r.reset(s.rs);
		switch(s.op){
			case OFFER: offer((unsigned)(s.arg(0) & 0xffff)); c.sim_time += s.arg(0); break;
			case BURST: { int k = (int)(s.arg(0) % 300); for(int i = 0; i < k && !stopped; ++i){ offer((unsigned)(s.arg(1) & 255)); c.sim_time += (s.arg(1) & 255); } c.fault("burst"); if(s.arg(1) == 0) c.fault("clock_stands_still"); break; }
			case OBS: { if(ts.size() <= S) break; // the largest legal obsolescence time minus a few elements
				size_t back = (size_t)(s.arg(0) % 40); size_t lim = ts.size() - S; unsigned top = ts[lim]; if(top == 0) break; unsigned t = top - 1; if(back){ size_t i = lim > back ? lim - back : 0; t = std::min(t,ts[i]); } obsolete(t); c.fault("obsolete_call"); if(s.arg(1) % 2 && !stopped){ obsolete(t); c.fault("obsolete_repeated"); } break; }
			case OBS_FREE: { if(ts.empty()) break; unsigned t = now - (unsigned)(s.arg(0) % 50); if((unsigned)(s.arg(0) % 50) > now) t = 0; if(s.arg(1) % 5 == 4) t = 0; obsolete(t); c.fault("obsolete_beyond_the_data"); break; }
			case MFAIL: if(!c6){ Mal::limit = Mal::count + (size_t)(s.arg(0) % 6); limited = true; c.fault("malloc_limit_armed"); } break; }
		uint64_t st = mix(S,Mal::count - Mal::fails); for(unsigned k = 0; k < S; ++k) st = mix(st,(uint64_t)((int64_t)ts.size() - shown[k])); c.state(st); }
	rand_faults(c,g_rnd); c.log(Mal::count); c.fault("malloc_failed",Mal::fails); c.fault("probe_slot_moved_by_obsolete",moved); c.fault("probe_legal_obsolete",nlegit);
	c.nontrivial = nlegit > 1 && ts.size() > 2*S; if(stopped) live.abandon(); Mal::drop(); }

typedef void (*RunF)(Plan const&, Ctx&);
template<unsigned S> struct RS { typedef ReservoirSampling<El,S,Fn> A; typedef ExponentialReservoirSampling<El,S,Fn> B; };
template<unsigned S> struct RI { typedef ReservoirSampling<int64_t,S,Fn> A; typedef ExponentialReservoirSampling<int64_t,S,Fn> B; typedef ChainedReservoirSampling<int64_t,S,CFn> C; };
static RunF const f4[] = { slots<RS<1>::A,1,false>, slots<RS<1>::B,1,true>, slots<RS<2>::A,2,false>, slots<RS<2>::B,2,true>, slots<RS<3>::A,3,false>, slots<RS<3>::B,3,true>, slots<RS<5>::A,5,false>, slots<RS<5>::B,5,true>, slots<RS<16>::A,16,false>, slots<RS<16>::B,16,true>, slots<RS<49>::A,49,false>, slots<RS<49>::B,49,true> };
static RunF const f5[] = { fair<RI<1>::A,1,0>, fair<RI<2>::A,2,0>, fair<RI<3>::A,3,0>, fair<RI<5>::A,5,0>, fair<RI<12>::A,12,0>, fair<RI<1>::B,1,1>, fair<RI<2>::B,2,1>, fair<RI<4>::B,4,1>, fair<RI<9>::B,9,1>, fair<RI<1>::C,1,2>, fair<RI<2>::C,2,2>, fair<RI<3>::C,3,2>, fair<RI<6>::C,6,2> };
static RunF const f6[] = { chain<1>, chain<2>, chain<3>, chain<4>, chain<7>, chain<13>, chain<32> };
#define CNT(x) ((int)(sizeof(x)/sizeof(x[0])))
HarnessDef sim::harness(){ HarnessDef h; h.name = "reservoir"; h.ops = {"offer","index","burst","ckpt","crash","ensemble","obsolete","obsolete_any","malloc_limit"};
	h.gen = [](Rng& r, Plan& p, std::string const& prop, bool th){
		if(prop == "C04"){ p.cfg = { r.below(CNT(f4)), r.below(6) }; int n = (int)r.range(4, th ? 300 : 120); int fm = (int)r.below(RM_COUNT); bool mixed = r.chance(0.6); double cr = r.chance(0.3) ? 0.05 : 0;
			for(int i = 0; i < n; ++i){ uint64_t rs = r.u64() >> 16; int rm = mixed ? (r.chance(0.5) ? 0 : (int)r.below(RM_COUNT)) : fm; double d = r.uni(); if(d < cr) p.add(r.chance(0.6) ? CKPT : CRASH,{},rs,rm); else if(r.chance(0.06)) p.add(BURST,{r.range(1,80)},rs,rm); else p.add(r.chance(0.5) ? OFFER : INDEX,{},rs,rm); } if(r.chance(0.004)) p.add(BURST,{1,r.range(66000,139000)},r.u64() >> 16,0); }
		else if(prop == "C05"){ p.cfg = { r.below(CNT(f5)) }; int64_t dn = r.chance(0.5) ? r.range(1,4) : r.range(0,30); p.add(ENSEMBLE,{dn, th ? 60000 : 20000},r.u64() >> 16); }
		else { bool c6 = prop == "C06"; static const int64_t t0[] = {1,1,2,100,4294960000ll,2147483640ll}; p.cfg = { r.below(CNT(f6)), r.below(6), t0[r.below(6)] };
			static const int Ss[] = {1,2,3,4,7,13,32}; int S = Ss[p.cfg[0]]; int n = (int)r.range(8, th ? 500 : 160); double obs = 0.03 + 0.3*r.uni()*r.uni(), free_ = c6 ? (r.chance(0.3) ? 0.03 : 0) : (r.chance(0.6) ? 0.06 : 0); int gap = (int)r.pick({0,1,1,2,10,60}); bool mf = !c6 && r.chance(0.25); int fm = (int)r.below(RM_COUNT); bool mixed = r.chance(0.7), uni = r.chance(0.4);
			if(r.chance(0.7)) p.add(BURST,{r.range(1,2*S+2),r.below(3)},r.u64() >> 16,0);
			for(int i = 0; i < n; ++i){ uint64_t rs = r.u64() >> 16; int rm = uni ? 0 : mixed ? (r.chance(0.5) ? 0 : (int)r.below(RM_COUNT)) : fm; double d = r.uni();
				if(d < obs) p.add(OBS,{r.chance(0.5) ? 0 : r.below(40),r.below(2)},rs,rm); else if(d < obs + free_) p.add(OBS_FREE,{r.below(50),r.below(5)},rs,rm); else if(mf && r.chance(0.01)) p.add(MFAIL,{r.below(6)},rs,rm);
				else if(r.chance(0.06)) p.add(BURST,{r.range(1,S+4),r.below(gap+1)},rs,rm); else p.add(OFFER,{r.chance(0.03) ? r.range(100,3000) : r.below(gap+1)},rs,rm); } } };
	h.exec = [](Plan const& p, Ctx& c){ int64_t k = p.c(0); if(k < 0) k = -k; if(p.prop == "C04") f4[k % CNT(f4)](p,c); else if(p.prop == "C05") f5[k % CNT(f5)](p,c); else f6[k % CNT(f6)](p,c); };
	return h; }
