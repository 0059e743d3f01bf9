// C10, C25: MCNN under drifting, noisy and hostile sample streams, checkpoint and crash.
#define SIM_MAIN
#include "prelude.hpp"
#include "mc_nn.hpp"
#include "core.hpp"
using namespace sim;
enum Op { TRAIN, BURST, PRED, FAR, DRIFT, RELABEL, CKPT, CRASH, NEWLABEL };
template<class FT, unsigned FC, unsigned MC, int EMPTY> void run(Plan const& p, Ctx& c){
	typedef MCNN<FT,FC,MC,EMPTY> M; bool const isint = std::is_integral<FT>::value;
	unsigned const thr = (unsigned)(p.c(2) % 8), clean = (unsigned)(p.c(3) % 3); double const pthr = (double)(p.c(4) % 120); bool const sep = p.c(5) % 2 == 1 && clean == 0;
	int const nl = sep ? (int)std::min<int64_t>(MC,1 + p.c(6) % 8) : 1 + (int)(p.c(6) % 12); int const base = (int)(p.c(7) % 1000) - 300;
	Placed<M> live, back; live.make((uint64_t)p.c(1),thr,clean,pthr); bool hb = false;
	if(live->get_error_thr() != thr) c.fail("parameter","error threshold %u instead of %u",live->get_error_thr(),thr);
	auto lab = [&](int l){ int v = base + l*7; if(v == EMPTY) v += 1; return v; };
	// centres of the groups
	std::vector<std::vector<double>> ctr(16); Rng cr((uint64_t)p.c(8)); double const scale = isint ? 400 : (p.c(9) % 3 == 0 ? 1 : p.c(9) % 3 == 1 ? 1000 : 1e6), rad = sep ? scale/60 : scale/(1 + (double)(p.c(10) % 12));
	for(int l = 0; l < 16; ++l){ ctr[l].resize(FC); for(unsigned f = 0; f < FC; ++f) ctr[l][f] = sep ? (f == 0 ? (l - 4) * scale/4 : scale/8*(double)cr.range(-1,1)) : (cr.uni()*2-1)*scale; if(isint) for(auto& v : ctr[l]) v = std::floor(v); }
	std::set<int> known, knownb; int prev = 0, prevb = 0; uint64_t trains = 0, trainsb = 0; int splits = 0, evict = 0, fullrej = 0;
	auto point = [&](Rng& r, int l, FT* x){ for(unsigned f = 0; f < FC; ++f){ double v = ctr[l][f] + rad*(2*r.uni()-1)*(sep ? 0.9 : 1); if(isint) v = std::max(-500.0,std::min(500.0,std::floor(v))); x[f] = (FT)v; } };
	auto train = [&](FT const* x, int label){
		FT keep[FC]; memcpy(keep,x,sizeof keep);
		bool r = live->train(x,label); int n = live->count_clusters(); c.log(r); c.log(n); c.note("train label %d -> %d, %d clusters",label,(int)r,n);
		if(memcmp(keep,x,sizeof keep)) c.fail("argument","train changed its input");
		if(!live.guards_ok()) c.fail("guard","memory outside the object was written");
		if(n < 1 || n > (int)MC) c.fail("cluster-budget","%d active clusters, allowed 1..%u",n,MC);
		if(n > prev + 2) c.fail("growth","clusters went from %d to %d in one call",prev,n);
		if(!r){ ++fullrej; if(clean != 1) c.fail("refused","train() returned false with cleaning method %u",clean); if(n != (int)MC) c.fail("refused","train() returned false with %d of %u clusters",n,MC); c.fault("refused_when_full"); }
		else known.insert(label);
		if(n > prev && trains) ++splits; if(n < prev) ++evict; prev = n; ++trains;
		if(sep && n != (int)known.size()) c.fail("cluster-count","%d clusters for %zu well separated labels",n,known.size()); };
	auto predict = [&](FT const* x, int want){ int r = live->predict(x); c.log(r);
		if(known.empty()){ if(r != EMPTY) c.fail("empty","predict() returned %d before any training",r); }
		else if(!known.count(r)) c.fail("unknown-label","predict() returned %d, which was never trained (%zu labels known)",r,known.size());
		if(sep && want != EMPTY && known.count(want) && r != want) c.fail("wrong-label","predict() returned %d for a point of the well separated group %d",r,want); };
	int drift = 0;
	for(size_t si = 0; si < p.steps.size(); ++si){ Step const& s = p.steps[si]; c.step = (long)si; Rng r(s.rs); FT x[FC]; int l = (int)(((s.arg(0) % nl) + nl) % nl);
		switch(s.op){
			case TRAIN: point(r,l,x); train(x,lab(l)); predict(x,lab(l)); c.sim_time += 1; break;
			case BURST: for(int k = 0; k < (int)(s.arg(1) % 60); ++k){ int q = s.arg(2) % 2 ? (int)r.below(nl) : l; point(r,q,x); train(x,lab(q)); c.sim_time += 1; } break;
			case PRED: for(int k = 0; k < 4; ++k){ int q = (int)r.below(nl); point(r,q,x); predict(x,lab(q)); } break;
			case FAR: { for(unsigned f = 0; f < FC; ++f){ double m = isint ? 30000 : std::pow(10.0,(double)r.range(4, (s.arg(1) % 4 == 3) ? 200 : 30)); x[f] = (FT)((r.chance(0.5) ? 1 : -1) * m); } predict(x,EMPTY); c.fault("far_point_predicted"); if(!sep && s.arg(2) % 4 == 0){ if(isint) for(unsigned f = 0; f < FC; ++f) x[f] = (FT)(x[f] > 0 ? 500 : -500); train(x,lab(l)); c.fault("sensor_spike_trained"); c.sim_time += 1; } predict(x,EMPTY); break; }
			case DRIFT: if(!sep){ for(unsigned f = 0; f < FC; ++f) ctr[l][f] = isint ? (double)r.range(-480,480) : (r.uni()*2-1)*scale; ++drift; c.fault("concept_drift"); } break;
			case RELABEL: if(!sep && nl > 1){ int q = (int)r.below(nl); std::swap(ctr[l],ctr[q]); for(int k = 0; k < 8; ++k){ point(r,l,x); train(x,lab(q)); c.sim_time += 1; } c.fault("label_noise"); } break;
			case NEWLABEL: if(!sep){ point(r,l,x); int nlb = 5000 + (int)r.below(40); train(x,nlb); c.fault("unexpected_label"); } break;
			case CKPT: back.copy_from(*live.obj,mix64(s.rs)|4); hb = true; knownb = known; prevb = prev; trainsb = trains; break;
			case CRASH: c.fault("crash_restart"); live.destroy(); if(hb){ live.copy_from(*back.obj,mix64(s.rs)|4); known = knownb; prev = prevb; trains = trainsb; } else { live.make(mix64(s.rs)|4,thr,clean,pthr); known.clear(); prev = 0; trains = 0; } break; }
		if(trains == 0 && live->count_clusters() != 0) c.fail("empty","%d clusters before any training",live->count_clusters());
		c.state(mix(mix(p.c(0),prev),mix(known.size(),c.h))); }
	c.fault("probe_cluster_added",splits); c.fault("probe_cluster_cleaned",evict); c.fault("probe_full_budget",prev == (int)MC); c.nontrivial = trains > 10 && (sep || splits > 1); }
// ------------------------------------------------------------------ C25
// Micro-clusters written from the description. Choices the description leaves open (near ties) keep every possible world; a world that contradicts an answer is dropped.
template<class FT, unsigned FC> struct Ref {
	struct Cl { FT s[FC], s2[FC]; double ts, init; unsigned n; int label, err; bool born; bool operator==(Cl const& o) const { if(ts != o.ts || init != o.init || n != o.n || label != o.label || err != o.err || born != o.born) return false; for(unsigned f = 0; f < FC; ++f) if(s[f] != o.s[f] || s2[f] != o.s2[f]) return false; return true; } };
	typedef std::vector<Cl> World; std::vector<World> w; int thr, clean; double pthr; unsigned budget; double time = -1; double tol;
	std::vector<std::pair<size_t,size_t>> ch; size_t at = 0; // choices taken / offered in the current execution
	size_t pick(size_t n){ if(n <= 1) return 0; if(at == ch.size()) ch.push_back(std::make_pair((size_t)0,n)); return ch[at++].first; }
	static void mid(Cl const& q, FT* o){ for(unsigned f = 0; f < FC; ++f) o[f] = (FT)((double)q.s[f]/(double)q.n); }
	static double dist(FT const* x, Cl const& q){ FT m[FC]; mid(q,m); double d = 0; for(unsigned f = 0; f < FC; ++f){ double z = (double)x[f] - (double)m[f]; d += z*z; } return d; }
	static double room(FT const* x, Cl const& q){ FT m[FC]; mid(q,m); double d = 0; for(unsigned f = 0; f < FC; ++f) d += (double)x[f]*(double)x[f] + (double)m[f]*(double)m[f]; return d; }
	bool close(double a, double b, double scale) const { return std::fabs(a-b) <= tol*(std::fabs(a) + std::fabs(b) + scale); }
	static bool plain(Cl const& q){ return !q.born && (q.n & (q.n-1)) == 0; }
	double part(Cl const& q) const { double d = (time*time + time)*0.5 - (q.init*q.init + q.init)*0.5; return q.ts*(100/d); }
	void start(Cl& q, FT const* x, int label, double t, bool born) const { q.n = 1; q.label = label; q.err = thr; q.ts = t; q.init = t; q.born = born; for(unsigned f = 0; f < FC; ++f){ q.s[f] = x[f]; q.s2[f] = x[f]*x[f]; } }
	int lowest(World& v, int but){ std::vector<int> c; double lo = 0; int k = -1; for(int i = 0; i < (int)v.size(); ++i){ if(i == but) continue; double p = part(v[i]); if(k < 0 || p < lo){ k = i; lo = p; } } if(k < 0) return -1; c.push_back(k); for(int i = 0; i < (int)v.size(); ++i) if(i != k && i != but && (close(part(v[i]),lo,0) || part(v[i]) == lo)) c.push_back(i); return c[pick(c.size())]; }
	void split(World& v, int i, int& other){ int drop = -1; bool self = false;
		if(v.size() >= budget){ if(clean == 1) return; drop = lowest(v,-1); if(drop == i){ int alt = lowest(v,i); if(alt < 0 || pick(2) == 0) self = true; else drop = alt; } }
		Cl q = v[i]; double hi = -1; double var[FC]; for(unsigned f = 0; f < FC; ++f){ double a = (double)q.s2[f]/(double)q.n, b = (double)q.s[f]/(double)q.n; var[f] = std::max(0.0,a - b*b); hi = std::max(hi,var[f]); } std::vector<unsigned> c; for(unsigned f = 0; f < FC; ++f) if(var[f] == hi) c.push_back(f); for(unsigned f = 0; f < FC; ++f) if(var[f] != hi && std::fabs(var[f]-hi) <= tol*((double)q.s2[f]/(double)q.n + hi)) c.push_back(f);
		unsigned f = c[pick(c.size())]; FT lo[FC], up[FC]; mid(q,lo); mid(q,up); double sd = std::sqrt(var[f]); lo[f] -= sd; up[f] += sd; double t = (double)(int)(q.ts/q.n);
		start(v[i],up,q.label,t,true); if(self){ if(pick(2) == 1) start(v[i],lo,q.label,t,true); return; } Cl z = q; start(z,lo,q.label,t,true); if(drop >= 0){ if(drop == other) other = pick(2) == 0 ? -1 : drop; v[drop] = z; } else v.push_back(z); }
	bool step(World& v, FT const* x, int label){ bool room_ = true; if(clean){ for(size_t i = 0; i < v.size(); ){ bool out = false; if(v[i].n > 1){ double p = part(v[i]); out = p < pthr; if(close(p,pthr,0)) out = pick(2) == 1; } if(out) v.erase(v.begin() + (long)i); else ++i; } }
		double const keep = time; time += 1;
		int a = -1, b = -1; double da = 0, db = 0; for(int i = 0; i < (int)v.size(); ++i){ double d = dist(x,v[i]); if(a < 0 || d < da){ a = i; da = d; } if(v[i].label == label && (b < 0 || d < db)){ b = i; db = d; } }
		if(b < 0){ if(v.size() < budget){ Cl q; start(q,x,label,time,false); v.push_back(q); } else if(clean == 1) room_ = false; else start(v[lowest(v,-1)],x,label,time,false); time = keep; return room_; }
		{ std::vector<int> c(1,b); for(int i = 0; i < (int)v.size(); ++i) if(i != b && v[i].label == label && close(dist(x,v[i]),db,room(x,v[i]))) c.push_back(i); b = c[pick(c.size())]; db = dist(x,v[b]); }
		{ std::vector<int> c; bool same = false; for(int i = 0; i < (int)v.size(); ++i) if(close(dist(x,v[i]),da,room(x,v[i]))) c.push_back(i); for(int i : c) if(i == b) same = true;
			if(same && dist(x,v[b]) == da){ bool exact = plain(v[b]); for(int i : c) if(!plain(v[i]) || dist(x,v[i]) != da) exact = false; if(exact) c.clear(); }
			if(!c.empty()){ std::vector<int> k; if(same) k.push_back(b); for(int i : c) if(v[i].label != label) k.push_back(i); if(!k.empty()) a = k[pick(k.size())]; else a = b; } else a = b; }
		auto take = [&](Cl& q){ q.ts += time; q.n += 1; for(unsigned f = 0; f < FC; ++f){ q.s[f] += x[f]; q.s2[f] += x[f]*x[f]; } };
		if(a == b){ v[a].err += 1; take(v[a]); } else { v[a].err -= 1; v[b].err -= 1; take(v[b]); bool again = v[a].err <= 0; int o = a; if(v[b].err <= 0) split(v,b,o); if(again){ if(o == a && v[a].err > 0 && thr > 0) o = -1; if(o >= 0 && v[(size_t)o].err <= 0){ int none = -1; split(v,o,none); } } else if(o == a && v[a].err <= 0){ int none = -1; split(v,o,none); } }
		time = keep; return room_; }
	// returns 0: consistent, 1: contradiction, 2: too many worlds
	int train(FT const* x, int label, bool ret, int count){ std::vector<World> nx; long tries = 0; for(World const& base : w){ ch.clear(); for(;;){ if(++tries > 4000) return 2; at = 0; World v = base; bool r = step(v,x,label); ch.resize(at); if(r == ret && (int)v.size() == count){ bool dup = false; for(World const& q : nx) if(q == v) dup = true; if(!dup) nx.push_back(v); } if(nx.size() > 48) return 2; while(!ch.empty() && ch.back().first + 1 >= ch.back().second) ch.pop_back(); if(ch.empty()) break; ++ch.back().first; } } time += 1; w.swap(nx); return w.empty(); }
	int predict(FT const* x, int got, int empty){ std::vector<World> nx; for(World const& v : w){ bool ok = v.empty() && got == empty; double lo = INFINITY; for(Cl const& q : v) lo = std::min(lo,dist(x,q)); for(Cl const& q : v) if(q.label == got && close(dist(x,q),lo,room(x,q))) ok = true; if(ok) nx.push_back(v); } w.swap(nx); return w.empty(); }
};
template<class FT, unsigned FC, unsigned MC> void refine(Plan const& p, Ctx& c){
	typedef MCNN<FT,FC,MC,-1> M; typedef Ref<FT,FC> R; bool const isint = std::is_integral<FT>::value; unsigned const thr = (unsigned)(p.c(2) % 8), clean = (unsigned)(p.c(3) % 3); double const pthr = (double)(p.c(4) % 120);
	Placed<M> live; live.make((uint64_t)p.c(1),thr,clean,pthr); R ref; ref.thr = (int)thr; ref.clean = (int)clean; ref.pthr = pthr; ref.budget = MC; ref.w.resize(1); ref.tol = std::is_same<FT,float>::value ? 3e-5 : 1e-10;
	int const nl = 1 + (int)(p.c(5) % 7), mode = (int)(p.c(6) % 3); Rng cr((uint64_t)p.c(7)); double const scale = isint ? 300 : 16, shift = p.c(8) % 4 == 0 ? scale*4 : 0; std::vector<std::vector<double>> ctr(8); auto place = [&](Rng& r, int l){ ctr[l].resize(FC); for(auto& v : ctr[l]) v = shift + scale*(2*r.uni()-1); }; for(int l = 0; l < 8; ++l) place(cr,l); double rad = scale/(1 + (double)(p.c(9) % 8));
	uint64_t splits = 0, evict = 0, n = 0; int prev = 0; size_t worlds = 1; bool over = false;
	auto grid = [&](double v){ return isint ? std::floor(v) : mode == 0 ? std::floor(v*8)/8 : mode == 1 ? std::floor(v) : v; };
	auto probe = [&](FT const* x, char const* what){ int r = live->predict(x); c.log(r); if(ref.predict(x,r,-1)) c.fail("prediction","%s: predicted %d, the nearest micro-cluster has another label",what,r); };
	for(size_t si = 0; si < p.steps.size() && !over; ++si){ Step const& s = p.steps[si]; c.step = (long)si; Rng r(s.rs);
		if(s.op == DRIFT){ place(r,(int)r.below(8)); c.fault("concept_drift"); continue; }
		if(s.op != BURST) continue; int m = (int)(s.arg(0) % 80); double noise = (double)(s.arg(1) % 50)/100.0; int one = (int)(s.arg(2) % 4); if(noise > 0) c.fault("label_noise");
		for(int k = 0; k < m && !over; ++k){ FT x[FC]; int l = one == 0 ? (int)(s.arg(3) % nl) : (int)r.below(nl); if(r.chance(0.02)) l = 7; for(unsigned f = 0; f < FC; ++f) x[f] = (FT)grid(ctr[l][f] + rad*(2*r.uni()-1)); int y = r.chance(noise) ? (int)r.below(nl) : l;
			bool ret = live->train(x,y); int cnt = live->count_clusters(); c.log(ret); c.log(cnt); ++n; c.sim_time += 1; int st = ref.train(x,y,ret,cnt); c.note("sample %llu label %d: %d, %d clusters, %zu worlds",(unsigned long long)n,y,(int)ret,cnt,ref.w.size());
			if(st == 1) c.fail("count","sample %llu: train() returned %d with %d clusters: not what the samples so far call for",(unsigned long long)n,(int)ret,cnt); if(st == 2){ c.fault("probe_run_ended_ambiguous"); over = true; break; }
			if(cnt > prev) ++splits; if(cnt < prev) ++evict; prev = cnt; worlds = std::max(worlds,ref.w.size());
			probe(x,"the sample"); for(int z = 0; z < 4; ++z){ auto const& v = ref.w[(size_t)r.below((int64_t)ref.w.size())]; FT q[FC]; if(z < 3 && !v.empty()){ auto const& a = v[(size_t)r.below((int64_t)v.size())]; auto const& b = v[(size_t)r.below((int64_t)v.size())]; FT m1[FC], m2[FC]; R::mid(a,m1); R::mid(b,m2); double t = z == 0 ? 0 : r.uni(); for(unsigned f = 0; f < FC; ++f) q[f] = (FT)((double)m1[f]*(1-t) + (double)m2[f]*t); } else for(unsigned f = 0; f < FC; ++f) q[f] = (FT)(shift + 1.5*scale*(2*r.uni()-1)); probe(q,"a probe"); } }
		if(!live.guards_ok()) c.fail("guard","memory outside the object was written"); c.state(mix(mix((uint64_t)p.c(0),(uint64_t)prev),c.h)); }
	c.fault("probe_clusters_added",splits); c.fault("probe_clusters_removed",evict); c.fault("probe_ambiguous_worlds",worlds > 1); c.fault("probe_budget_reached",prev == (int)MC); c.nontrivial = n > 10 && splits > 1; }
typedef void (*RunF)(Plan const&, Ctx&);
static RunF const f25[] = { refine<double,1,4>, refine<double,2,6>, refine<double,2,25>, refine<double,3,10>, refine<float,2,8>, refine<float,3,25>, refine<int,2,8>, refine<int,1,25>, refine<long,3,12>, refine<double,2,2>, refine<double,1,1>, refine<double,5,50> };
static RunF const fs[] = { run<double,1,1,-1>, run<double,2,2,-1>, run<double,2,5,-1>, run<double,3,25,-1>, run<float,2,8,-1>, run<float,4,25,0>, run<int,2,6,-1>, run<int,3,25,-1>, run<double,8,50,-99>, run<double,1,3,-1>, run<int,1,4,-1>, run<long,2,8,-1> };
static const int NF = sizeof(fs)/sizeof(fs[0]);
HarnessDef sim::harness(){ HarnessDef h; h.name = "mcnn"; h.ops = {"train","burst","predict","far","drift","relabel","ckpt","crash","newlabel"};
	h.gen = [](Rng& r, Plan& p, std::string const& prop, bool th){
		if(prop == "C25"){ p.cfg = { r.below(12), r.below(6), r.chance(0.6) ? r.below(3) : r.below(8), r.below(3), r.below(120), r.below(7), r.below(3), (int64_t)(r.u64() >> 40), r.below(4), r.below(8) }; int n = (int)r.range(1,th ? 30 : 10); bool noisy = r.chance(0.7); for(int i = 0; i < n; ++i){ if(r.chance(0.15)) p.add(DRIFT,{},r.u64() >> 16); else p.add(BURST,{r.range(3,79),noisy ? r.below(50) : 0,r.below(6),r.below(7)},r.u64() >> 16); } return; }
		p.cfg = { r.below(NF), r.below(6), r.below(8), r.below(3), r.below(120), r.chance(0.3) ? 1 : 0, r.below(12), r.below(1000), (int64_t)(r.u64() >> 40), r.below(3), r.below(12) }; if(p.cfg[5]) p.cfg[3] = 0;
		int n = (int)r.range(4, th ? 250 : 90); double hostile = r.uni()*0.3; bool cr = r.chance(0.3);
		for(int i = 0; i < n; ++i){ uint64_t rs = r.u64() >> 16; int64_t l = r.below(12); if(r.chance(hostile)) p.add(r.pick<int>({FAR,DRIFT,RELABEL,NEWLABEL,FAR}),{l,r.below(8),r.below(8)},rs); else if(cr && r.chance(0.05)) p.add(r.chance(0.6) ? CKPT : CRASH,{},rs); else if(r.chance(0.1)) p.add(BURST,{l,r.range(1,50),r.below(2)},rs); else if(r.chance(0.1)) p.add(PRED,{},rs); else p.add(TRAIN,{l},rs); } };
	h.exec = [](Plan const& p, Ctx& c){ if(p.prop == "C25"){ f25[((p.c(0) % 12) + 12) % 12](p,c); return; } fs[((p.c(0) % NF) + NF) % NF](p,c); };
	return h; }
