// C22: NaiveBayes, ErrorMetrics and KappaMetrics replicas that receive the same samples in different orders.
#define SIM_MAIN
#include "prelude.hpp"
#include "naive_bayes.hpp"
#include "metrics.hpp"
#include "core.hpp"
using namespace sim;
struct Fn { static double log(double v){ return std::log(v); } static double sqrt(double v){ return std::sqrt(v); } };
enum Op { PUB, DEL, QUERY, RESET, SYNC, ERRS, TWIN };
static bool close(double a, double b, double tol){ if(a == b) return true; if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if(std::isinf(a) || std::isinf(b)) return false; return std::fabs(a-b) <= tol*(1 + std::max(std::fabs(a),std::fabs(b))); }
template<class FT, int LC, int FC, class KM, class EM, bool RATIO> void run(Plan const& p, Ctx& c){
	typedef NaiveBayes<FT,LC,FC,Fn> NB; int const R = 3;
	struct Smp { std::vector<FT> x; int label; int w; int pred; };
	struct Rep { Placed<NB> nb; Placed<EM> em; Placed<KM> km; std::vector<int> inbox, got; }; Rep rep[R + 1];
	for(int r = 0; r <= R; ++r){ rep[r].nb.make((uint64_t)p.c(1)+r); rep[r].em.make((uint64_t)p.c(1)+r); rep[r].km.make((uint64_t)p.c(1)+r+7); }
	std::vector<Smp> all; long conf[LC][LC]; long errs = 0, cnt = 0; long extra = 0; memset(conf,0,sizeof conf); int reorder = 0; long batch = 0; int64_t const span = 1 + p.c(3) % 60; double const off = (double)(p.c(4) % 5) * 1000;
	auto deliver = [&](int r, int i, bool split){ Smp const& s = all[i]; Rep& x = rep[r];
		std::vector<FT> keep = s.x;
		if(split) for(int k = 0; k < s.w; ++k){ if(!x.nb->train(s.x.data(),s.label)) c.fail("refused","NaiveBayes::train returned false"); } else if(!x.nb->train(s.x.data(),s.label,(double)s.w)) c.fail("refused","NaiveBayes::train returned false");
		if(keep != s.x) c.fail("argument","train changed its input");
		x.em->update(s.label,s.pred); x.km->update(s.label,s.pred); x.got.push_back(i); };
	auto refscore = [&](std::vector<int> const& got, long ex, double* e, double* k){ long cf[LC][LC]; memset(cf,0,sizeof cf); long n = 0, er = 0; for(int i : got){ cf[all[i].label][all[i].pred]++; ++n; er += all[i].label != all[i].pred; }
		n += ex; er += ex; if(LC > 1) cf[0][1 % LC] += ex; *e = (double)er / (double)n; double po = 0, pe = 0; for(int i = 0; i < LC; ++i){ double a = 0, b = 0; for(int j = 0; j < LC; ++j){ a += cf[i][j]; b += cf[j][i]; } po += cf[i][i]; pe += a*b; } po /= n; pe /= (double)n*n; double kp = (po - pe)/(1 - pe); if(pe >= 1 - 1e-12) kp = NAN; *k = (1 - kp)/2; };
	std::vector<long> ex(R+1,0);
	auto metrics = [&](int r){ Rep& x = rep[r]; long n = (long)x.got.size() + ex[r]; if(n == 0) return; double e, k; refscore(x.got,ex[r],&e,&k); int ts = 1 + (int)(n % 9); double rt = RATIO ? ts : 1;
		if(x.em->ratio() != RATIO || x.km->ratio() != RATIO) c.fail("ratio","ratio() is wrong");
		double a = x.em->score(false,ts), b = x.em->score(true,ts), d = x.km->score(false,ts), f = x.km->score(true,ts); c.logd(a); c.logd(d);
		if(!close(a,e*rt,1e-9)) c.fail("error-rate","replica %d: error score %.12g, counts say %.12g",r,a,e*rt); if(!close(b,(1-e)/rt,1e-9)) c.fail("error-rate","replica %d: inverted error score %.12g, counts say %.12g",r,b,(1-e)/rt);
		if(!std::isnan(k)){ if(!close(d,k*rt,1e-9)) c.fail("kappa","replica %d: kappa score %.12g, confusion counts say %.12g",r,d,k*rt); if(!close(f,(1-k)/rt,1e-9)) c.fail("kappa","replica %d: inverted kappa score %.12g, confusion counts say %.12g",r,f,(1-k)/rt); } };
	auto top = [&](Rep& x, int l, double const* sc){ if(x.got.empty()) return; if(l < 0 || l >= LC) c.fail("label","predicted label %d",l); for(int k = 0; k < LC; ++k) if(sc[k] > sc[l]) c.fail("argmax","label %d was predicted with score %.12g, label %d scores %.12g",l,sc[l],k,sc[k]); };
	auto same = [&](int a, int b, uint64_t seed){ Rng r(seed); for(int q = 0; q < 6; ++q){ FT x[FC]; for(int f = 0; f < FC; ++f) x[f] = (!all.empty() && r.chance(0.5)) ? all[r.below((int64_t)all.size())].x[f] : (FT)(off + (double)r.range(-span,span)/8); double sa[LC], sb[LC]; FT y[FC]; memcpy(y,x,sizeof x);
			int la = rep[a].nb->predict(x,sa), lb = rep[b].nb->predict(x,sb); if(memcmp(x,y,sizeof x)) c.fail("argument","predict changed its input"); int la2 = rep[a].nb->predict(x); if(la2 != la) c.fail("predict","two predictions of one point differ"); top(rep[a],la,sa); top(rep[b],lb,sb);
			double best = -INFINITY, second = -INFINITY; for(int l = 0; l < LC; ++l){ c.logd(std::round(sa[l]*1e4)); if(!close(sa[l],sb[l],1e-6)) c.fail("order","label %d: score %.12g in one arrival order and %.12g in another",l,sa[l],sb[l]); if(sa[l] > best){ second = best; best = sa[l]; } else if(sa[l] > second) second = sa[l]; if(std::isnan(sa[l])) best = INFINITY, second = INFINITY; }
			if(seed & 1) for(int l = 0; l < LC; ++l){ // the batch computation
				long double W = 0, T = 0; for(int i : rep[a].got){ T += all[i].w; if(all[i].label == l) W += all[i].w; } if(T <= 0) break; bool vague = false; long double want = W > 0 ? std::log(W/T) : -INFINITY;
				for(int f = 0; f < FC && W > 0; ++f){ long double m = 0, v = 0; for(int i : rep[a].got) if(all[i].label == l) m += (long double)all[i].w*(long double)all[i].x[f]; m /= W; for(int i : rep[a].got) if(all[i].label == l){ long double d = (long double)all[i].x[f] - m; v += all[i].w*d*d; } bool flat = v < 1e-9L; v = flat || W <= 1 ? 0 : v/(W-1); long double d = (long double)x[f] - m; if(v == 0){ if(d == 0) continue; if(std::fabs(d) < 1e-9L) vague = true; want = -INFINITY; } else { long double e = -d*d/(2*v); if(e < -650) vague = true; want += e - 0.5L*std::log(2*3.14159265358979323846L*v); } }
				++batch; if(!vague && !close(sa[l],(double)want,2e-5)) c.fail("batch","label %d scores %.12g, the batch computation over its %zu samples gives %.12g",l,sa[l],rep[a].got.size(),(double)want); }
			if(la < 0 || la >= LC) c.fail("label","predicted label %d",la); if(best - second > 1e-5*(1+std::fabs(best)) && la != lb) c.fail("order","label %d in one arrival order and %d in another",la,lb); } };
	auto sync = [&](uint64_t seed){ Rng r(seed); for(int k = 0; k < R; ++k){ while(!rep[k].inbox.empty()){ size_t i = (size_t)r.below((int64_t)rep[k].inbox.size()); if(i) ++reorder; int v = rep[k].inbox[i]; rep[k].inbox.erase(rep[k].inbox.begin()+i); deliver(k,v,k == 1); } } for(int k = 1; k < R; ++k) same(0,k,seed + k); for(int k = 0; k < R; ++k) metrics(k); };
	for(size_t si = 0; si < p.steps.size(); ++si){ Step const& s = p.steps[si]; c.step = (long)si; c.sim_time += 1; Rng r(s.rs); int k = (int)(((s.arg(0) % R) + R) % R);
		switch(s.op){
			case PUB: { Smp m; m.label = (int)(((s.arg(1) % LC) + LC) % LC); m.w = s.arg(2) % 4 == 0 ? (int)r.range(1,6) : 1; m.pred = r.chance(0.6) ? m.label : (int)r.below(LC); for(int f = 0; f < FC; ++f) m.x.push_back((FT)(off + (double)(r.range(-span,span) + m.label*5)/8)); all.push_back(m); for(int q = 0; q < R; ++q) rep[q].inbox.push_back((int)all.size()-1); break; }
			case DEL: if(!rep[k].inbox.empty()){ size_t i = (size_t)((uint64_t)s.arg(1) % rep[k].inbox.size()); if(i){ c.fault("reordered_delivery"); ++reorder; } int v = rep[k].inbox[i]; rep[k].inbox.erase(rep[k].inbox.begin()+i); bool split = k == 1; if(split && all[v].w > 1) c.fault("weight_as_repeated_delivery"); deliver(k,v,split); metrics(k); } break;
			case QUERY: { FT x[FC]; for(int f = 0; f < FC; ++f) x[f] = (FT)(off + (double)r.range(-span,span)/8); double sc[LC]; double const sm = (double)r.range(0,40)/8; rep[k].nb->set_smoothing(sm); if(rep[k].nb->get_smoothing() != sm) c.fail("smoothing","get_smoothing() is not what was set"); int l = rep[k].nb->predict(x,sc); top(rep[k],l,sc); break; }
			case RESET: { Rep& x = rep[R]; x.em->reset(); x.km->reset(); x.got.clear(); ex[R] = 0; int n = (int)r.range(1,10); if(r.chance(0.05)) n = (int)std::exp(r.uni()*12); for(int q = 0; q < n && !all.empty(); ++q){ int i = (int)r.below((int64_t)all.size()); x.em->update(all[i].label,all[i].pred); x.km->update(all[i].label,all[i].pred); x.got.push_back(i); } metrics(R); c.fault("metric_reset"); break; }
			case ERRS: { Rep& x = rep[R]; int n = (int)r.range(1,5); if(r.chance(0.3)) n = (int)std::exp(r.uni()*14); if(ex[R] + n > 200000000) break; if(n > 40000) c.fault("burst_of_errors"); if(n == 1){ x.em->increase_error(); x.km->increase_error(); } else { x.em->increase_error(n); x.km->increase_error(n); } ex[R] += n; metrics(R); break; }
			case SYNC: sync(s.rs); break;
			case TWIN: { Placed<EM> e2; Placed<KM> k2; e2.make(s.rs|4); k2.make(s.rs|4); Rep& x = rep[k]; for(int i : x.got){ e2->update(all[i].label,all[i].pred); } *k2.obj = *x.km.obj; if(!x.got.empty()){ if(!close(e2->score(false,3),x.em->score(false,3),0)) c.fail("history","same error counts, different score"); double a = k2->score(false,3), b = x.km->score(false,3); if(!close(a,b,0)) c.fail("assign","an assigned KappaMetrics scores %.12g instead of %.12g",a,b); } break; } }
		for(int q = 0; q <= R; ++q) if(!rep[q].nb.guards_ok() || !rep[q].em.guards_ok() || !rep[q].km.guards_ok()) c.fail("guard","memory outside an object was written");
		c.state(mix(mix(p.c(0),all.size()),mix(rep[0].got.size()*64 + rep[1].got.size(),rep[2].got.size() + (uint64_t)c.h))); }
	sync(p.seed); same(0,1,p.seed | 1); c.fault("probe_scores_checked_against_batch",(uint64_t)batch); c.nontrivial = all.size() >= 4 && reorder > 2; (void)extra; (void)cnt; (void)errs; }
typedef void (*RunF)(Plan const&, Ctx&);
static RunF const fs[] = { run<double,2,1,KappaMetrics<2>,ErrorMetrics<>,false>, run<double,3,2,KappaMetrics<3,true>,ErrorMetrics<true>,true>, run<float,5,3,KappaMetrics<5>,ErrorMetrics<false>,false>, run<double,10,6,KappaMetrics<10,true>,ErrorMetrics<true>,true>, run<int,4,2,KappaMetrics<4>,ErrorMetrics<>,false> };
static const int NF = sizeof(fs)/sizeof(fs[0]);
HarnessDef sim::harness(){ HarnessDef h; h.name = "stats"; h.ops = {"publish","deliver","query","reset","sync","errors","twin"};
	h.gen = [](Rng& r, Plan& p, std::string const&, bool th){ p.cfg = { r.below(NF), r.below(6), 0, r.below(60), r.chance(0.3) ? r.below(5) : 0 }; int n = (int)r.range(6, th ? 300 : 110); double pub = 0.2 + 0.2*r.uni(); int lc = (int)r.range(1,10);
		for(int i = 0; i < n; ++i){ uint64_t rs = r.u64() >> 16; double d = r.uni(); if(d < pub) p.add(PUB,{0,r.below(lc),r.below(8)},rs); else if(d < 0.9) p.add(DEL,{r.below(3),r.chance(0.7) ? r.below(40) : 0},rs); else p.add(r.pick<int>({QUERY,RESET,SYNC,ERRS,TWIN}),{r.below(3)},rs); } };
	h.exec = [](Plan const& p, Ctx& c){ fs[((p.c(0) % NF) + NF) % NF](p,c); };
	return h; }
