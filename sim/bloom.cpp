// C03: replicas of a BloomFilter fed through a lossy, duplicating, reordering network, with crash and restore through set().
#define SIM_MAIN
#include "prelude.hpp"
#include "bloom_filter.hpp"
#include "core.hpp"
using namespace sim;
static const int U = 80; static int t_h[5][U]; static uint64_t g_calls;
template<int K> static unsigned int hk(int* e){ ++g_calls; return (unsigned)t_h[K][((*e % U) + U) % U]; }
typedef unsigned int (*hf)(int*);
static hf const hfs[5] = { hk<0>, hk<1>, hk<2>, hk<3>, hk<4> };
enum Op { PUB, DEL, CKPT, CRASH, CLEAR, LOOK, HEAL, SETBITS };
template<int BITS, int HC> void run(Plan const& p, Ctx& c){
	typedef BloomFilter<int,BITS,HC> F; const int R = 3;
	Rng hr((uint64_t)p.c(1)); int style = (int)(p.c(2) % 3);
	for(int k = 0; k < 5; ++k) for(int i = 0; i < U; ++i) t_h[k][i] = style == 0 ? (int)hr.below(BITS) : style == 1 ? (i * (k+1)) % BITS : (int)hr.below(2) * (BITS-1);
	hf local[HC]; for(int k = 0; k < HC; ++k) local[k] = hfs[k];
	struct Msg { int e; };
	struct Rep { Placed<F> f; std::vector<unsigned char> model, ck; std::vector<int> inbox, since; std::set<int> acked, ckacked; bool cleared = false; int delivered = 0; } rep[R];
	for(int r = 0; r < R; ++r){ rep[r].f.make((uint64_t)p.c(3) + r, local); rep[r].model.assign(BITS,0); rep[r].ck.assign(BITS,0); }
	for(int k = 0; k < HC; ++k) local[k] = nullptr; // the caller's array may go away
	std::set<int> published; int crashes = 0, dups = 0, reord = 0;
	auto madd = [&](Rep& x, int e){ for(int k = 0; k < HC; ++k) x.model[t_h[k][e]] = 1; x.acked.insert(e); };
	auto mlook = [&](Rep& x, int e){ for(int k = 0; k < HC; ++k) if(!x.model[t_h[k][e]]) return false; return true; };
	auto deliver = [&](Rep& x, int e){ if(e & 1) x.f->add(e); else { int t = e; x.f->add(&t); if(t != e) c.fail("argument","add changed the element it was given"); } madd(x,e); x.since.push_back(e); x.delivered++; };
	auto checkr = [&](int r){ Rep& x = rep[r]; for(int e = 0; e < U; ++e){ int t = e; bool l = (e & 1) ? x.f->lookup(e) : x.f->lookup(&t); c.log(l);
		if(!l && x.acked.count(e)) c.fail("false-negative","replica %d: element %d was added and is reported absent",r,e);
		if(l != mlook(x,e)) c.fail("bits","replica %d: lookup(%d) = %d, but its bits say %d",r,e,(int)l,(int)mlook(x,e)); }
		if(!x.f.guards_ok()) c.fail("guard","memory outside the filter was written"); };
	for(size_t si = 0; si < p.steps.size(); ++si){ Step const& s = p.steps[si]; c.step = (long)si; c.sim_time += 1; int e = (int)(((s.arg(0) % U) + U) % U), r = (int)(((s.arg(1) % R) + R) % R); Rep& x = rep[r];
		switch(s.op){
			case PUB: published.insert(e); for(int k = 0; k < R; ++k){ rep[k].inbox.push_back(e); } break;
			case DEL: if(!x.inbox.empty()){ size_t i = (size_t)((uint64_t)s.arg(2) % x.inbox.size()); int v = x.inbox[i]; if(i){ c.fault("reordered_delivery"); ++reord; }
				int how = (int)(((s.arg(3) % 4) + 4) % 4);
				if(how == 1){ c.fault("duplicated_delivery"); ++dups; deliver(x,v); deliver(x,v); x.inbox.erase(x.inbox.begin()+i); }
				else if(how == 2){ c.fault("lost_then_retried"); } // stays in the inbox
				else if(how == 3){ c.fault("delivered_ack_lost"); deliver(x,v); }
				else { deliver(x,v); x.inbox.erase(x.inbox.begin()+i); } } break;
			case CKPT: x.ck = x.model; x.ckacked = x.acked; x.since.clear(); break;
			case CRASH: { c.fault("crash_restore_set"); ++crashes; std::vector<int> re = x.since; for(int k = 0; k < HC; ++k) local[k] = hfs[k]; x.f.make(mix64(s.rs)|4,local);
				std::vector<unsigned char> buf = x.ck; x.f->set(buf.data()); std::fill(buf.begin(),buf.end(),(unsigned char)(s.rs & 1)); x.model = x.ck; x.acked = x.ckacked;
				checkr(r); x.since.clear(); Rng o(s.rs); while(!re.empty()){ size_t i = (size_t)o.below((int64_t)re.size()); int v = re[i]; re.erase(re.begin()+i); deliver(x,v); } break; }
			case CLEAR: x.f->clear(); std::fill(x.model.begin(),x.model.end(),0); x.acked.clear(); x.since.clear(); x.ck = x.model; x.ckacked.clear(); x.cleared = true; c.fault("clear"); break;
			case SETBITS: { Rng o(s.rs); std::vector<unsigned char> b(BITS); for(auto& v : b) v = (unsigned char)(o.below(4) == 0); x.f->set(b.data()); x.model = b; x.acked.clear(); x.since.clear(); x.ck = b; x.ckacked.clear(); x.cleared = true; break; }
			case HEAL: while(!x.inbox.empty()){ deliver(x,x.inbox.back()); x.inbox.pop_back(); } break;
			case LOOK: checkr(r); break; }
		if(s.op == CRASH || s.op == CLEAR || s.op == SETBITS || s.op == HEAL || si % 5 == 0) checkr(r);
		uint64_t st = mix((uint64_t)p.c(0),r); for(auto b : x.model) st = st*2 + b + (st >> 61); c.state(mix64(st)); }
	for(int r = 0; r < R; ++r){ for(int v : rep[r].inbox) deliver(rep[r],v); rep[r].inbox.clear(); checkr(r); }
	for(int r = 1; r < R; ++r) if(!rep[0].cleared && !rep[r].cleared) for(int e = 0; e < U; ++e) if(rep[0].f->lookup(e) != rep[r].f->lookup(e)) c.fail("divergence","replicas 0 and %d received the same elements and answer differently for %d",r,e);
	c.nontrivial = !published.empty() && (dups || reord) && crashes; }
struct Cfg { void (*f)(Plan const&, Ctx&); };
static Cfg const cfgs[] = { {run<1,1>}, {run<7,1>}, {run<8,2>}, {run<9,3>}, {run<64,3>}, {run<100,5>}, {run<257,2>}, {run<1024,4>}, {run<65,1>}, {run<31,5>} };
static const int NC = sizeof(cfgs)/sizeof(cfgs[0]);
HarnessDef sim::harness(){ HarnessDef h; h.name = "bloom"; h.ops = {"publish","deliver","ckpt","crash","clear","lookup","heal","setbits"};
	h.gen = [](Rng& r, Plan& p, std::string const&, bool th){ p.cfg = { r.below(NC), (int64_t)(r.u64() >> 40), r.chance(0.6) ? 0 : r.below(3), r.below(6) };
		int n = (int)r.range(6, th ? 300 : 100); int uni = (int)r.range(2,U); double pub = 0.2 + 0.3*r.uni(), clr = r.chance(0.3) ? 0.03 : 0, cr = 0.02 + 0.1*r.uni(), bad = r.uni(); bool sb = r.chance(0.3);
		for(int i = 0; i < n; ++i){ uint64_t rs = r.u64() >> 16; int64_t e = r.below(uni), rep = r.below(3); double d = r.uni();
			if(d < pub) p.add(PUB,{e,rep},rs); else if((d -= pub) < clr) p.add(CLEAR,{e,rep},rs); else if((d -= clr) < cr) p.add(r.chance(0.5) ? CKPT : CRASH,{e,rep},rs);
			else if(r.chance(0.03)) p.add(HEAL,{e,rep},rs); else if(sb && r.chance(0.03)) p.add(SETBITS,{e,rep},rs); else if(r.chance(0.05)) p.add(LOOK,{e,rep},rs); else p.add(DEL,{e,rep,r.below(50),r.chance(bad) ? r.below(4) : 0},rs); } };
	h.exec = [](Plan const& p, Ctx& c){ cfgs[((p.c(0) % NC) + NC) % NC].f(p,c); };
	return h; }
