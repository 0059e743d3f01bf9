// C08, C09: LTC fed by a simulated sensor with a simulated clock; a receiver rebuilds the signal from the transmitted points.
#define SIM_MAIN
#include "prelude.hpp"
#include "ltc.hpp"
#include "core.hpp"
using namespace sim;
enum Op { LINE, NOISE, EDGE, SPIKE, SAT, STUCK, GAP, WALK, REREAD, TOUCH };
template<class V, class T, int EPS, int MX, int MN, int TUD> void run(Plan const& p, Ctx& c){
	typedef LTC<V,T,EPS,MX,MN,TUD> L; bool const c8 = p.prop == "C08";
	Placed<L> live; live.make((uint64_t)p.c(1));
	bool const isint = std::is_integral<V>::value; double const tol = (isint ? 1.0 : 0.0) + 1e-6 + (sizeof(V) == 4 && !isint ? 1e-6 * std::max(std::fabs((double)MX),std::fabs((double)MN)) : 0) + 1e-9*std::max(std::fabs((double)MX),std::fabs((double)MN));
	double const shr = 1e-6 + (sizeof(V) == 4 && !isint ? 2e-6 * std::max(std::fabs((double)MX),std::fabs((double)MN)) : 0) + 1e-9*std::max(std::fabs((double)MX),std::fabs((double)MN));
	struct S { T t; V v; }; std::vector<S> in; std::vector<size_t> outi; // index of the sample at the time of each transmitted point
	std::vector<S> out; T now = (T)p.c(2); double level = 0, slope = 0; level = MN + (MX - (double)MN) * ((p.c(3) % 101 + 101) % 101) / 100.0; bool have = false; T lt = T(); V lv = V(); long lines = 0;
	auto rd = [&](T& t, V& v){ live->get_value_to_transmit(t,v); };
	// what a kept point and the samples since allow; guides the sensor (TOUCH), judges nothing
	double kt = 0, kw = 0, slo = -INFINITY, shi = INFINITY; auto guide = [&](bool n){ size_t j = in.size() - 1; auto put = [&](S const& z){ double d = (double)z.t - kt; slo = std::max(slo,(std::max((double)z.v - EPS,(double)MN) - kw)/d); shi = std::min(shi,(std::min((double)z.v + EPS,(double)MX) - kw)/d); };
		if(j == 0){ kt = (double)in[0].t; kw = (double)in[0].v; return; } if(n && j){ double d = (double)in[j-1].t - kt; double w = ((kw + shi*d) + (kw + slo*d))/2; kt = (double)in[j-1].t; kw = isint ? std::trunc(w) : (double)(V)w; slo = -INFINITY; shi = INFINITY; } put(in[j]); };
	auto pow2 = [](double d){ for(double q = 0.25; q <= 256; q *= 2) if(d == q) return true; return false; }; auto shortv = [](double v){ return std::floor(v*4096) == v*4096; }; bool const tudok = TUD == 1 || TUD == 2; long touches = 0;
	auto sample = [&](double x, T dt){
		if(x > MX) x = MX; if(x < MN) x = MN; V v = isint ? (V)std::llround(x) : (V)x; if((double)v > MX) v = (V)MX; if((double)v < MN) v = (V)MN;
		if(!in.empty()) now = now + dt; c.sim_time += (double)dt;
		bool n = live->add(now,v); in.push_back(S{now,v}); c.log(n); guide(n);
		if(!live.guards_ok()) c.fail("guard","memory outside the object was written");
		T t; V w; 
		if(!n){ if(have){ rd(t,w); if(!c8 && !(t == lt && w == lv)) c.fail("reread","the transmitted point changed from (%.9g,%.9g) to (%.9g,%.9g) without a transmission",(double)lt,(double)lv,(double)t,(double)w); } return; }
		rd(t,w); c.logd((double)t); c.logd((double)w); c.note("sample %zu (%.9g,%.9g) transmits (%.9g,%.9g)",in.size()-1,(double)now,(double)v,(double)t,(double)w);
		size_t j = in.size() - 1, k = 0; size_t from = outi.empty() ? 0 : outi.back(); for(k = from; k <= j; ++k) if(in[k].t == t) break;
		if(!c8){
			if(out.empty() && !(k == 0 && in[0].v == w)) c.fail("first-point","the first transmitted point (%.9g,%.9g) is not the first sample (%.9g,%.9g)",(double)t,(double)w,(double)in[0].t,(double)in[0].v);
			if(!out.empty() && !(t > out.back().t)) c.fail("order","transmitted time %.9g after %.9g",(double)t,(double)out.back().t);
			if(k > j) c.fail("not-a-sample","transmitted time %.9g is not the time of a sample since the last transmitted point",(double)t);
			if(k >= j) c.fail("too-late","the transmitted point is not older than the sample that triggered it");
			// was it needed? a line from (t,w) that is within eps of every sample after it, the new one included, and inside the range
			// exact when every quantity is a short binary fraction: then even a line that only touches the margins must do
			bool exact = tudok && shortv((double)w); for(size_t q = k+1; q <= j && exact; ++q) exact = pow2((double)in[q].t - (double)t) && shortv((double)in[q].v); double sh = exact ? 0 : shr;
			double lo = -INFINITY, hi = INFINITY; for(size_t q = k+1; q <= j; ++q){ double d = (double)in[q].t - (double)t; double a = std::max((double)in[q].v - EPS, (double)MN) + sh, b = std::min((double)in[q].v + EPS, (double)MX) - sh; lo = std::max(lo,(a - (double)w)/d); hi = std::min(hi,(b - (double)w)/d); }
			if(exact) ++touches; if(exact ? lo <= hi : lo < hi && EPS > 0) c.fail("needless","transmitted (%.9g,%.9g) although slopes %.9g..%.9g still fit all %zu samples since",(double)t,(double)w,lo,hi,j-k);
		} else if(k <= j && !out.empty()){
			S a = out.back(), b{t,w}; for(size_t q = outi.back(); q <= k; ++q){ double f = ((double)in[q].t - (double)a.t)/((double)b.t - (double)a.t); double y = (double)a.v + f*((double)b.v - (double)a.v); double err = std::fabs(y - (double)in[q].v); ++lines;
				if(!(err <= EPS + tol)) c.fail("error","sample %zu (%.9g,%.9g) is rebuilt as %.9g: error %.9g > epsilon %d%s",q,(double)in[q].t,(double)in[q].v,y,err,EPS,isint ? " + 1" : ""); }
		} else if(c8 && (k > j)) c.fail("error","transmitted time %.9g belongs to no sample, nothing can be rebuilt",(double)t);
		out.push_back(S{t,w}); outi.push_back(k); have = true; lt = t; lv = w; };
	T const unit = (T)1;
	for(size_t si = 0; si < p.steps.size(); ++si){ Step const& s = p.steps[si]; c.step = (long)si; Rng r(s.rs); int n = (int)(s.arg(0) % 120); double range = (double)MX - MN; T dt = (T)std::max<int64_t>(1,s.arg(2) % 100); if(!std::is_integral<T>::value && (s.arg(2) & 1)) dt = dt * (T)0.25;
		auto d = [&](){ return s.arg(3) % 2 ? (T)(dt * (T)(1 + r.below(5))) : dt; };
		switch(s.op){
			case LINE: { slope = range * ((double)(s.arg(1) % 2001) - 1000) / 1e5 / (1 + 0*EPS); for(int i = 0; i < n; ++i){ T q = d(); if(level + slope*(double)q/(double)dt > MX || level + slope*(double)q/(double)dt < MN) slope = -slope; level += slope*(double)q/(double)dt; sample(level,q); } break; }
			case NOISE: { double a = EPS * (double)(1 + (s.arg(1) % 300)) / 100.0; for(int i = 0; i < n; ++i) sample(level + a*(2*r.uni()-1),d()); c.fault("sensor_noise"); break; }
			case EDGE: { for(int i = 0; i < n; ++i) sample(std::llround(level) + (r.chance(0.5) ? EPS : -EPS) * (r.chance(0.2) ? 1 : r.chance(0.5) ? 0 : 1) + (r.chance(0.05) ? 1 : 0),d()); c.fault("noise_exactly_epsilon"); break; }
			case SPIKE: sample(r.chance(0.5) ? MX : MN,d()); c.fault("sensor_spike"); break;
			case SAT: for(int i = 0; i < n; ++i) sample(s.arg(1) % 2 ? MX : MN,d()); level = s.arg(1) % 2 ? MX : MN; c.fault("sensor_saturated"); break;
			case STUCK: for(int i = 0; i < n; ++i) sample(level,d()); c.fault("sensor_stuck"); break;
			case GAP: sample(level,(T)(1 + s.arg(1) % 5000)); c.fault("clock_gap"); break;
			case WALK: for(int i = 0; i < n; ++i){ level += (EPS + 1) * r.gauss() * (0.2 + (s.arg(1) % 30) / 10.0); level = std::max((double)MN,std::min((double)MX,level)); sample(level,d()); } break;
			case TOUCH: { for(int i = 0; i < n && !in.empty(); ++i){ double e = (double)now - kt, E = 1; while(E <= e) E *= 2; if(E > 256){ sample(r.chance(0.5) ? MX : MN,(T)1); continue; } double x = kw; if(std::isfinite(slo) && slo <= shi) switch(r.below(6)){ case 0: case 1: x = kw + shi*E + EPS; break; case 2: case 3: x = kw + slo*E - EPS; break; case 4: x = kw + (slo + shi)/2*E; break; default: x = kw + shi*E + EPS + (r.chance(0.5) ? 1 : -1); } else x = kw + (double)r.range(-3,3); sample(std::floor(x*4)/4,(T)(E - e)); } c.fault("line_touches_margin"); break; }
			case REREAD: if(have && !c8){ T t; V w; for(int i = 0; i < 3; ++i){ rd(t,w); if(!(t == lt && w == lv)) c.fail("reread","reading the transmitted point again gives (%.9g,%.9g) instead of (%.9g,%.9g)",(double)t,(double)w,(double)lt,(double)lv); } c.fault("receiver_rereads"); } break; }
		c.state(mix(mix(p.c(0),out.size()),mix((uint64_t)(int64_t)level,in.size() - (outi.empty() ? 0 : outi.back())))); }
	if(c8 && MX - (double)MN > 4.0*EPS){ // the sensor goes wild: everything seen before must reach the receiver
		size_t n0 = in.size(); for(int i = 0; i < 14; ++i) sample(i & 1 ? MX : MN,(T)1);
		if(n0 && (out.empty() || outi.back() + 1 < n0)) c.fail("never-sent","samples up to %zu are not covered by transmitted points although the signal has left every line since (last covered: %ld)",n0-1,outi.empty() ? -1L : (long)outi.back()); }
	c.fault("probe_transmissions",out.size()); c.fault("probe_transmissions_checked_exactly",touches); c.fault("probe_samples_rebuilt",lines); c.nontrivial = out.size() >= 3; (void)unit; }
typedef void (*RunF)(Plan const&, Ctx&);
static RunF const fs[] = { run<int,int,0,32767,-32768,1>, run<int,int,1,32767,-32768,1>, run<int,int,5,32767,-32768,1>, run<int,unsigned,3,1000,-1000,1>, run<double,double,1,32767,-32768,1>, run<double,double,7,500,-500,3>, run<float,unsigned,2,32767,-32768,1>, run<short,int,4,32767,-32768,1>, run<int,int64_t,10,32767,-32768,7>, run<double,int,3,100,-100,5>, run<unsigned char,int,2,255,0,1>, run<int,int,50,2000000000,-2000000000,1>, run<double,int,20,40,-40,10>, run<long,unsigned,2,100000,0,2> };
static const int NF = sizeof(fs)/sizeof(fs[0]);
HarnessDef sim::harness(){ HarnessDef h; h.name = "ltc"; h.ops = {"line","noise","edge","spike","saturate","stuck","gap","walk","reread","touch"};
	h.gen = [](Rng& r, Plan& p, std::string const&, bool th){ p.cfg = { r.below(NF), r.below(6), r.pick<int64_t>({0,1,5,100,1000000,3,7}), r.below(101) }; int n = (int)r.range(3, th ? 60 : 25); bool jit = r.chance(0.5); int mask = (int)r.u64();
		for(int i = 0; i < n; ++i){ int op = (int)r.below(10); if(!((mask >> op) & 1) && op > 1) op = (int)r.below(2) ? LINE : WALK; bool one = r.chance(0.5); p.add(op,{r.range(1,40), r.chance(0.4) ? 1000 + r.range(-12,12) : r.below(5001), one ? 1 : r.range(1,20), jit ? 1 : 0},r.u64() >> 16); } };
	h.exec = [](Plan const& p, Ctx& c){ fs[((p.c(0) % NF) + NF) % NF](p,c); };
	return h; }
