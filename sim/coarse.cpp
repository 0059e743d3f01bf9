// C16: every sample is accounted for once. C17: the node pool of the coarse forest stays sound.
// The reference model is the plain list of the samples every tree took: boxes and counters follow from it.
// C26: the trees are Mondrian processes. C27: predictions are the posterior means of the trees.
#define SIM_MAIN
#include "prelude.hpp"
#include "core.hpp"
#include "mondrian_coarse.hpp"
using namespace sim;
namespace {
RandSrc* src;
struct Fn { static double rand_uniform(){ return src->next(); } static double exp(double x){ return std::exp(x); } static double log(double x){ return std::log(x); } };
typedef ErrorMetrics<false> St;
static const int MF = 4, ML = 5;
struct NodeView { int sd, l, r, p, fe; double sv, tau, fading, lo[MF], up[MF]; int c[ML]; bool used() const { return tau >= 0; } bool leaf() const { return l < 0 && r < 0; } };
struct Params { double life, base, disc; int trees, mgmt, limit, et, tt; double mts, fc; int fed = 0, fes = 0, sh = 0; double fep = 1; };
struct ITree { virtual bool train(double const* x, int l) = 0; virtual int predict(double const* x, double* s, int t = -1) = 0; virtual void trim() = 0; virtual int nodes() = 0; virtual NodeView node(int i) = 0; virtual int root(int t) = 0; virtual int counted(int t) = 0; virtual bool guards_ok() = 0; virtual ~ITree(){} };
template<int FC, int LC, int N> struct T_ : ITree {
	static const int SZ = N*(int)sizeof(MondrianNode<FC,LC>) + 5*64; typedef CoarseMondrianForest<double,Fn,St,FC,LC,SZ> F; Placed<F> f; int trees;
	T_(Params const& q, uint64_t g): trees(q.trees){ f.make(g,q.life,q.base,q.disc,q.trees,q.mgmt,NODE_SIZE,q.limit,0,false,q.fed,q.fes,1.0,true,true,q.fep,q.fc,q.sh,q.et,q.tt,q.mts); }
	bool train(double const* x, int l) override { return f->train(x,l); }
	int predict(double const* x, double* s, int t) override { return f->predict(x,s,t); }
	void trim() override { f->tree_trim(); }
	int nodes() override { return (SZ - trees*(int)sizeof(typename F::TreeBase))/(int)sizeof(MondrianNode<FC,LC>); }
	NodeView node(int i) override { auto const& n = f->get_nodes()[i]; NodeView v; v.sd = n.split_dimension; v.sv = n.split_value; v.l = n.child_left; v.r = n.child_right; v.p = n.parent; v.fe = n.forced_extend; v.tau = n.tau; v.fading = n.fading_score; for(int k = 0; k < MF; ++k){ v.lo[k] = k < FC ? n.bound_lower[k] : 0; v.up[k] = k < FC ? n.bound_upper[k] : 0; } for(int k = 0; k < ML; ++k) v.c[k] = k < LC ? n.counters[k] : 0; return v; }
	int root(int t) override { return f->get_bases()[t].root; }
	int counted(int t) override { return f->count_data_point_tree(t); }
	bool guards_ok() override { return f.guards_ok(); } };
#ifdef __SANITIZE_ADDRESS__
template<int FC, int LC> ITree* pick(int b, Params const& q, uint64_t g){ switch(b/2){ case 0: return new T_<FC,LC,3>(q,g); case 1: return new T_<FC,LC,9>(q,g); case 2: return new T_<FC,LC,60>(q,g); default: return new T_<FC,LC,250>(q,g); } }
#else
template<int FC, int LC> ITree* pick(int b, Params const& q, uint64_t g){ switch(b){ case 0: return new T_<FC,LC,1>(q,g); case 1: return new T_<FC,LC,3>(q,g); case 2: return new T_<FC,LC,5>(q,g); case 3: return new T_<FC,LC,9>(q,g); case 4: return new T_<FC,LC,20>(q,g); case 5: return new T_<FC,LC,60>(q,g); default: return new T_<FC,LC,250>(q,g); } }
#endif
ITree* make(int shape, int b, Params const& q, uint64_t g){ return shape == 0 ? pick<2,2>(b,q,g) : shape == 1 ? pick<1,3>(b,q,g) : pick<4,5>(b,q,g); }
static const int FCN[3] = {2,1,4}, LCN[3] = {2,3,5};

enum Op { TRAIN, AGAIN, GROW, CHAIN, PREDICT, TRIM };
struct Pt { double x[MF]; int l; };
struct TreeShape { std::vector<int> order; int depth = 0; long count = 0; }; // nodes from the root down, left first

struct Run { Plan const& p; Ctx& c; int fc, lc; Params q; std::unique_ptr<ITree> f; RandSrc rs; Rng w; int N; std::vector<NodeView> nv; std::vector<TreeShape> ts; std::vector<std::vector<Pt>> took; std::vector<Pt> seen; long n = 0; bool trimmed = false; double cen[6][MF]; long full_since = -1, lost_then = 0; int far = 3, deep = 0; std::vector<char> inner; double fsum[MF] = {0}, fcount = 0;
	bool c16, c27;
	Run(Plan const& p_, Ctx& c_): p(p_), c(c_), w((uint64_t)p_.c(11)), c16(p_.prop == "C16"), c27(p_.prop == "C27") { int shape = (int)(p.c(0) % 3); fc = FCN[shape]; lc = LCN[shape]; static const double LIFE[8] = {0,0.5,1,2,5,20,1e3,1e6};
		q.life = LIFE[p.c(3) % 8]; q.base = (double)(1 + p.c(4) % 20)/20; q.disc = (double)(p.c(5) % 20)/20; q.trees = (int)(1 + p.c(2) % 5); q.mgmt = (int)(p.c(6) % 5); q.limit = p.c(7) % 3 == 0 ? (int)(1 + p.c(7)/3 % 8) : -1; q.et = (int)(p.c(8) % 6); q.tt = (int)(p.c(9) % 4); if(q.et == EXTEND_BARYCENTER){ static const double FEP[4] = {1,1,0.5,0.1}; q.fed = (int)(p.c(13) % 4); q.fes = (int)(p.c(13)/4 % 4); q.sh = (int)(p.c(13)/16 % 3); q.fep = FEP[p.c(13)/48 % 4]; } else if(c16) q.tt = 0; q.mts = p.c(10) % 4 == 0 ? 0.3 : 1.0; q.fc = p.c(10) % 2 ? 1.0 : 0.99;
		if(c27){ if(p.c(4) % 3) q.base = 1.0/lc; if(p.c(5) % 2) q.disc *= 4; }
		for(auto& z : cen) for(double& v : z) v = grid(2*w.uni() - 1);
		src = &rs; f.reset(make(shape,(int)(p.c(1) % 7),q,(uint64_t)p.c(12))); N = f->nodes(); took.resize((size_t)q.trees); inner.assign((size_t)q.trees,0); look(); }
	static double grid(double v){ return std::floor(v*1024 + 0.5)/1024; }
	void look(){ nv.resize((size_t)N); for(int i = 0; i < N; ++i) nv[(size_t)i] = f->node(i); }
	int used() const { int u = 0; for(auto const& v : nv) u += v.used(); return u; }
	bool limited() const { return q.limit > 0 && q.mgmt <= 1; }
	Pt point(Rng& r, int kind){ Pt z; int k = (int)r.below(6); z.l = k % lc; for(int i = 0; i < MF; ++i) z.x[i] = 0; for(int i = 0; i < fc; ++i){ double v; switch(kind % 5){ case 1: v = (double)r.range(-3,3)/4; break; case 2: v = i ? cen[0][i] : 2*r.uni() - 1; break; case 3: v = r.chance(0.2) ? 500*(2*r.uni() - 1) : cen[k][i] + 0.1*r.gauss(); break; case 4: v = 2*r.uni() - 1; break; default: v = cen[k][i] + 0.15*r.gauss(); } z.x[i] = grid(v); } if(r.chance(0.15)) z.l = (int)r.below(lc); return z; }
	std::string at(int t){ return "tree " + std::to_string(t) + " after " + std::to_string(n) + " samples (" + std::to_string(N) + " nodes, " + std::to_string(q.trees) + " trees, extension " + std::to_string(q.et) + ", trimming " + std::to_string(q.tt) + ")"; }
	// own traversal: never trusts a link before it is checked
	void walk(int t, int id, int parent, int d, std::vector<char>& mark, TreeShape& s){
		if(id < 0 || id >= N) c.fail("link","%s: node %d has child %d",at(t).c_str(),parent,id);
		NodeView const& v = nv[(size_t)id];
		if(mark[(size_t)id]) c.fail("shared","%s: node %d is reached twice",at(t).c_str(),id);
		mark[(size_t)id] = 1; s.order.push_back(id); if(d + 1 > s.depth) s.depth = d + 1;
		if(!v.used()) c.fail("link","%s: node %d is part of the tree but marked as free",at(t).c_str(),id);
		if(v.p != parent) c.fail("link","%s: the parent of node %d is %d instead of %d",at(t).c_str(),id,v.p,parent);
		if(parent >= 0 && v.tau < nv[(size_t)parent].tau) c.fail("tau","%s: lifetime %.17g of node %d is below %.17g of its parent",at(t).c_str(),v.tau,id,nv[(size_t)parent].tau);
		if((v.l < 0) != (v.r < 0) || (v.sd < 0) != (v.l < 0)) c.fail("link","%s: node %d splits on %d with children %d and %d",at(t).c_str(),id,v.sd,v.l,v.r);
		if(v.sd < 0){ for(int k = 0; k < lc; ++k) s.count += v.c[k]; return; }
		if(v.sd >= fc) c.fail("link","%s: node %d splits on feature %d",at(t).c_str(),id,v.sd);
		walk(t,v.l,id,d+1,mark,s); walk(t,v.r,id,d+1,mark,s);
		NodeView const &l = nv[(size_t)v.l], &r = nv[(size_t)v.r];
		if(q.et == EXTEND_BARYCENTER){ double m = 1e-9*(std::fabs(v.sv) + std::fabs(v.lo[v.sd]) + std::fabs(v.up[v.sd])); if(v.lo[v.sd] <= v.up[v.sd] && q.fep == 1 && deep <= 90 && !(l.up[v.sd] <= v.sv + m && v.sv - m <= r.lo[v.sd])) c.fail("split","%s: node %d splits feature %d at %.17g, its children reach up to %.17g and down to %.17g",at(t).c_str(),id,v.sd,v.sv,l.up[v.sd],r.lo[v.sd]); } else if((q.et <= 3 || q.tt == TRIM_NONE) && !(l.up[v.sd] <= v.sv && v.sv < r.lo[v.sd])) c.fail("split","%s: node %d splits feature %d at %.17g, its children reach up to %.17g and down to %.17g",at(t).c_str(),id,v.sd,v.sv,l.up[v.sd],r.lo[v.sd]);
		if(q.et == EXTEND_BARYCENTER && deep <= 90 && q.fep == 1) for(int k = 0; k < fc; ++k){ double m = 1e-9*(std::fabs(v.lo[k]) + std::fabs(v.up[k])); if(l.lo[k] < v.lo[k] - m || r.lo[k] < v.lo[k] - m || l.up[k] > v.up[k] + m || r.up[k] > v.up[k] + m) c.fail("box","%s: a child of node %d leaves its box",at(t).c_str(),id); }
		if(q.et <= 3) for(int k = 0; k < fc; ++k) if(l.lo[k] < v.lo[k] || r.lo[k] < v.lo[k] || l.up[k] > v.up[k] || r.up[k] > v.up[k]) c.fail("box","%s: a child of node %d leaves its box",at(t).c_str(),id); }
	void audit(){ std::vector<char> mark((size_t)N,0); ts.assign((size_t)q.trees,TreeShape());
		for(int t = 0; t < q.trees; ++t){ int r = f->root(t); if(r >= 0) walk(t,r,-1,0,mark,ts[(size_t)t]); else if(r != -1) c.fail("link","tree %d has root %d",t,r);
			if(limited() && ts[(size_t)t].depth > std::max(1,q.limit)) c.fail("limit","%s: depth %d, limit %d",at(t).c_str(),ts[(size_t)t].depth,q.limit); deep = std::max(deep,ts[(size_t)t].depth); }
		for(int i = 0; i < N; ++i) if(nv[(size_t)i].used() && !mark[(size_t)i]) c.fail("leak","after %ld samples node %d is in no tree but not free (%d nodes, extension %d, trimming %d)",n,i,N,q.et,q.tt);
		if(!f->guards_ok()) c.fail("guard","memory outside the forest was written"); }
	int route(int t, double const* x){ int id = f->root(t); while(nv[(size_t)id].sd >= 0) id = x[nv[(size_t)id].sd] <= nv[(size_t)id].sv ? nv[(size_t)id].l : nv[(size_t)id].r; return id; }
	bool inside(NodeView const& v, double const* x){ for(int k = 0; k < fc; ++k) if(x[k] < v.lo[k] || x[k] > v.up[k]) return false; return true; }
	// the tree against the list of samples it took
	void refine(int t){ if(trimmed || inner[(size_t)t] || q.fep != 1 || f->root(t) < 0) return; std::vector<std::vector<int>> cnt((size_t)N,std::vector<int>((size_t)lc,0)); std::vector<NodeView> box((size_t)N); std::vector<char> any((size_t)N,0);
		for(auto const& z : took[(size_t)t]) for(int id = f->root(t);;){ NodeView& b = box[(size_t)id]; for(int k = 0; k < fc; ++k){ if(!any[(size_t)id] || z.x[k] < b.lo[k]) b.lo[k] = z.x[k]; if(!any[(size_t)id] || z.x[k] > b.up[k]) b.up[k] = z.x[k]; } any[(size_t)id] = 1; NodeView const& v = nv[(size_t)id]; if(v.sd < 0){ cnt[(size_t)id][(size_t)z.l]++; break; } id = z.x[v.sd] <= v.sv ? v.l : v.r; }
		for(int id : ts[(size_t)t].order){ NodeView const& v = nv[(size_t)id]; if(v.sd < 0) for(int k = 0; k < lc; ++k) if(v.c[k] != cnt[(size_t)id][(size_t)k]) c.fail("counter","%s: leaf %d counts %d samples of label %d, it took %d",at(t).c_str(),id,v.c[k],k,cnt[(size_t)id][(size_t)k]);
			if(q.et <= 1) for(int k = 0; k < fc; ++k) if(v.lo[k] != box[(size_t)id].lo[k] || v.up[k] != box[(size_t)id].up[k]) c.fail("box","%s: box of node %d on feature %d is [%.17g, %.17g], its samples span [%.17g, %.17g]",at(t).c_str(),id,k,v.lo[k],v.up[k],box[(size_t)id].lo[k],box[(size_t)id].up[k]); } }
	void reports(){ for(int t = 0; t < q.trees; ++t){ TreeShape const& s = ts[(size_t)t]; if(s.depth <= 98 && f->counted(t) != s.count) c.fail("report","%s: count_data_point_tree reports %d, the leaves count %ld",at(t).c_str(),f->counted(t),s.count); if(s.depth > 100) c.fault("probe_depth_over_100"); } }
	bool train(Pt const& z){
		int u0 = used(), free0 = N - u0; bool full = free0 <= 1; std::vector<long> before; for(auto const& s : ts) before.push_back(s.count); std::vector<char> empty; std::vector<int> oldr; for(int t = 0; t < q.trees; ++t){ oldr.push_back(f->root(t)); empty.push_back(f->root(t) < 0); } bool may_trim = q.tt != TRIM_NONE && n % 100 == 0 && full;
		std::vector<NodeView> old = nv; std::vector<TreeShape> olds = ts;
		bool ok = f->train(z.x,z.l); ++n; c.sim_time += 1; look(); audit(); bool all = true;
		if(q.et == EXTEND_GHOST && q.tt == TRIM_NONE) for(int t = 0; t < q.trees; ++t){ int r = f->root(t); if(r < 0) continue; int o = oldr[(size_t)t]; for(int k = 0; k < lc; ++k){ int want = (o < 0 ? 0 : old[(size_t)o].c[k]) + (k == z.l); if(nv[(size_t)r].c[k] != want) c.fail("ghost","%s: the root counts %d samples of label %d, expected %d",at(t).c_str(),nv[(size_t)r].c[k],k,want); }
			for(int id : ts[(size_t)t].order){ NodeView const& v = nv[(size_t)id]; if(v.sd >= 0) for(int k = 0; k < lc; ++k) if(v.c[k] < nv[(size_t)v.l].c[k] + nv[(size_t)v.r].c[k]) c.fail("ghost","%s: node %d counts %d samples of label %d, its children %d and %d",at(t).c_str(),id,v.c[k],k,nv[(size_t)v.l].c[k],nv[(size_t)v.r].c[k]); } }
		if(may_trim){ long lost = 0; for(int t = 0; t < q.trees; ++t) lost += ts[(size_t)t].count != before[(size_t)t] + 1; if(lost){ trimmed = true; c.fault("probe_automatic_trim"); } else for(auto& l : took) l.push_back(z); }
		for(int t = 0; t < q.trees && !may_trim; ++t){ long d = ts[(size_t)t].count - before[(size_t)t]; if(d < 0 || d > 1) c.fail("count","%s: one sample changed the number of counted samples by %ld",at(t).c_str(),d); all &= d == 1;
			if(d) took[(size_t)t].push_back(z);
			else { bool excuse = false; if(empty[(size_t)t]) excuse = free0 < q.trees; /* no node for a root */
				else if(q.et == EXTEND_NONE) excuse = free0 <= 2*q.trees; else if(q.et == EXTEND_GHOST || q.et == EXTEND_PARTIAL_UPDATE) excuse = free0 < 2*q.trees || limited() || q.mgmt == 2 || q.mgmt == 4;
				if(!excuse) c.fail("dropped","%s: a sample was not counted although %d nodes were free",at(t).c_str(),free0); else c.fault("probe_sample_refused_or_missed"); }
			if(d && used() == u0 && q.et != EXTEND_BARYCENTER && !empty[(size_t)t]){ int leaf = route(t,z.x); if(nv[(size_t)leaf].c[z.l] != old[(size_t)leaf].c[z.l] + 1) c.fail("label","%s: the leaf of the sample does not count its label",at(t).c_str()); } }
		bool moved = false; if(q.et == EXTEND_BARYCENTER){ for(int k = 0; k < fc; ++k) fsum[k] = fsum[k]*q.fc + z.x[k]; fcount = fcount*q.fc + 1; int left = free0; if(!may_trim) for(int t = 0; t < q.trees; ++t) if(!empty[(size_t)t] && olds[(size_t)t].depth <= 90) { moved |= forced(t,z,old,olds[(size_t)t],oldr[(size_t)t],free0,left); left -= (int)ts[(size_t)t].order.size() - (int)olds[(size_t)t].order.size(); } else { moved = true; left -= (int)ts[(size_t)t].order.size() - (int)olds[(size_t)t].order.size(); } }
		bool none = true; for(auto e : empty) none &= !e; if(!may_trim && (q.et == EXTEND_NONE || q.et == EXTEND_ORIGINAL) && ok != all) c.fail("return","%s: train() returned %d, the trees %s the sample",at(0).c_str(),ok,all ? "took" : "did not all take"); if(q.et > 1 && none && !ok) c.fail("return","%s: train() returned false",at(0).c_str());
		// faded counts decay while a leaf takes nothing
		if(q.tt == TRIM_FADING && !may_trim && !moved) for(auto const& t : olds) if(t.depth <= 98) for(int id : t.order) if(old[(size_t)id].sd < 0 && nv[(size_t)id].used() && nv[(size_t)id].sd < 0){ NodeView const &a = old[(size_t)id], &b = nv[(size_t)id]; long took1 = 0; for(int k = 0; k < lc; ++k) took1 += b.c[k] - a.c[k]; if(took1 == 0 ? (b.fading > a.fading || (a.fading > 1e-9 && b.fading == a.fading) || b.fading < 0.9*a.fading) : (b.fading < 0.9*(a.fading + 1) || b.fading > a.fading + 1)) c.fail("fading","%s: faded count of leaf %d went from %.12g to %.12g while it took %ld samples",at(0).c_str(),id,a.fading,b.fading,took1); }
		// a full forest that trims makes room by itself
		if(q.tt != TRIM_NONE && q.mts >= 1 && !c16 && full){ bool can = false; for(auto const& s : olds) can |= s.order.size() >= 3 && s.depth <= 98; if(!can) full_since = -1; else if(full_since < 0 || trim_seen(old)) full_since = n; else if(n - full_since > 200) c.fail("no-trim","%s: the forest was full for 200 samples and nothing was trimmed",at(0).c_str()); } else full_since = -1;
		if(seen.size() < 3000) seen.push_back(z); else seen[(size_t)w.below(3000)] = z; c.log(ok); return ok; }
	// the barycenter policy: what one sample does to a tree that has a root. Returns whether a node was split inside its box.
	typedef std::map<int,NodeView> Nodes;
	void grow(NodeView& v, double const* x, double f){ for(int k = 0; k < fc; ++k){ if(x[k] < v.lo[k]) v.lo[k] = f == 1 ? x[k] : v.lo[k] - (v.lo[k] - x[k])*f; if(x[k] > v.up[k]) v.up[k] = f == 1 ? x[k] : v.up[k] + (x[k] - v.up[k])*f; } }
	// clips the subtree below id to one side of the split and takes the counts of the other side out; returns what stands in its place
	int clip(Nodes& e, int id, bool top, int d, double v, bool left, std::vector<int>& out, long& lo, long& hi, bool& tie){ NodeView& m = e[id]; NodeView const o = m; if(top) (left ? m.up : m.lo)[d] = v; // a leaf that is split itself keeps its counts
		if(m.sd < 0){ double w = m.up[d] - m.lo[d], pc = w == 0 ? (v > m.lo[d] ? 1 : 0) : std::min(1.0,std::max(0.0,(v - m.lo[d])/w)), po = left ? 1 - pc : pc; long n = 0; for(int k = 0; k < lc; ++k){ n += m.c[k]; double y = m.c[k]*po; if(std::fabs(y - std::floor(y) - 0.5) < 1e-6) tie = true; int o = (int)std::floor(y + 0.5); out[(size_t)k] += o; m.c[k] -= o; }
			if(v > o.lo[d] && v < o.up[d]){ double p0 = (v - o.lo[d])/(o.up[d] - o.lo[d]), a = (double)n*p0, b = (double)n*(1 - p0); long x = (long)(a - 1e-6), y = (long)(b - 1e-6); if(x < 0) x = 0; if(y < 0) y = 0; long er = n - x - y; lo += x - y - er; hi += x - y + er; } else if(v <= o.lo[d]){ lo -= n; hi -= n; } else { lo += n; hi += n; } }
		if(left){ m.up[d] = std::min(m.up[d],v); m.lo[d] = std::min(m.lo[d],v); } else { m.up[d] = std::max(m.up[d],v); m.lo[d] = std::max(m.lo[d],v); }
		if(m.sd < 0) return id; int r = clip(e,m.r,false,d,v,left,out,lo,hi,tie), l = clip(e,m.l,false,d,v,left,out,lo,hi,tie); NodeView& q2 = e[id]; q2.l = l; q2.r = r; e[l].p = id; e[r].p = id;
		auto gone = [&](int k){ NodeView const& y = e[k]; if(y.sd >= 0 || y.up[d] != y.lo[d]) return false; for(int i = 0; i < lc; ++i) if(y.c[i]) return false; return true; };
		int keep = gone(l) ? r : gone(r) ? l : -1; if(keep < 0) return id; e.erase(keep == l ? r : l); e.erase(id); c.fault("probe_empty_side_removed"); return keep; }
	std::string differ(int t, Nodes const& e, Nodes const& old, double const* x){ if(e.size() != ts[(size_t)t].order.size()) return "the tree has " + std::to_string(ts[(size_t)t].order.size()) + " nodes instead of " + std::to_string(e.size()); char b[300];
		for(auto const& [id,v] : e){ NodeView const& y = nv[(size_t)id]; if(!y.used() || y.sd != v.sd || y.sv != v.sv || y.tau != v.tau || y.l != v.l || y.r != v.r || y.p != v.p){ snprintf(b,300,"node %d: split %d at %.12g, time %.12g, parent %d, children %d and %d; expected %d at %.12g, time %.12g, parent %d, children %d and %d",id,y.sd,y.sv,y.tau,y.p,y.l,y.r,v.sd,v.sv,v.tau,v.p,v.l,v.r); return b; }
			auto o = old.find(id); for(int k = 0; k < fc; ++k){ double s = 1e-9*(std::fabs(v.lo[k]) + std::fabs(v.up[k]) + std::fabs(x[k]) + (o == old.end() ? 0 : std::fabs(o->second.lo[k]) + std::fabs(o->second.up[k]))); if(!(std::fabs(y.lo[k] - v.lo[k]) <= s) || !(std::fabs(y.up[k] - v.up[k]) <= s)){ snprintf(b,300,"box of node %d on feature %d is [%.12g, %.12g], expected [%.12g, %.12g]",id,k,y.lo[k],y.up[k],v.lo[k],v.up[k]); return b; } }
			if(v.sd < 0) for(int k = 0; k < lc; ++k) if(y.c[k] != v.c[k]){ snprintf(b,300,"leaf %d counts %d samples of label %d, expected %d",id,y.c[k],k,v.c[k]); return b; } }
		return ""; }
	long total(Nodes& e, int id){ NodeView& v = e[id]; if(v.sd >= 0) return total(e,v.l) + total(e,v.r); long n2 = 0; for(int k = 0; k < lc; ++k) n2 += v.c[k]; return n2; }
	// the side that is kept holds d more samples than the other one, d between a and b (rounding inside a leaf)
	bool share(int fe, int kept, int other, long n2, long a, long b){ if(n2 <= 0) return kept >= 0 && other >= 0 && kept + other <= fe; double r0 = std::max(0.0,0.5 + 0.5*(double)a/(double)n2), r1 = std::min(1.0,0.5 + 0.5*(double)b/(double)n2); return kept >= (int)std::floor(fe*r0 - 1e-6) && kept <= (int)std::floor(fe*r1 + 1e-6) && other >= (int)std::floor(fe*(1-r1) - 1e-6) && other <= (int)std::floor(fe*(1-r0) + 1e-6); }
	bool forced(int t, Pt const& z, std::vector<NodeView> const& before, TreeShape const& shape, int root, int free0, int left0){ double const* x = z.x; Nodes old; for(int id : shape.order) old[id] = before[(size_t)id]; std::vector<int> fresh; for(int id : ts[(size_t)t].order) if(!old.count(id)) fresh.push_back(id);
		std::vector<long> sum((size_t)lc,0); for(auto const& [id,v] : old) if(v.sd < 0) for(int k = 0; k < lc; ++k) sum[(size_t)k] -= v.c[k]; for(int id : ts[(size_t)t].order) if(nv[(size_t)id].sd < 0) for(int k = 0; k < lc; ++k) sum[(size_t)k] += nv[(size_t)id].c[k];
		for(int k = 0; k < lc; ++k) if(sum[(size_t)k] != (k == z.l)) c.fail("total","%s: the leaves count %+ld samples of label %d after one of label %d",at(t).c_str(),sum[(size_t)k],k,z.l);
		bool tight = limited() || q.mgmt == 2 || q.mgmt == 4 || free0 < 2*q.trees; Nodes e = old;
		// While every draw is 1/2 a waiting time is its median and a place the middle, so what has to happen is known. 1: the sample splits the node (it leaves the box, and that in time); 0: not; -1: too close to call.
		bool exact = rs.mode == RM_HALF && q.limit <= 0 && q.mgmt != 2 && q.mgmt != 4 && N >= 9; auto wait = [&](NodeView const& v, double& tau){ double w = 0, p0 = v.p < 0 ? 0 : old[v.p].tau; for(int k = 0; k < fc; ++k) w += std::max(0.0,v.lo[k] - x[k]) + std::max(0.0,x[k] - v.up[k]); if(w <= 0) return 0; tau = p0 + std::log(2.0)/w; return std::fabs(tau - v.tau) <= 1e-9*(tau + v.tau) ? -1 : tau < v.tau ? 1 : 0; };
		if(fresh.empty()){ for(int id = root;;){ NodeView& v = e[id]; bool out = !inside(v,x); grow(v,x,q.fep); int df = nv[(size_t)id].fe - v.fe; double tw = 0; int must = exact ? wait(old[id],tw) : -1; if(exact && must == 1 && left0 >= 2) c.fail("step","%s: node %d was not split although the sample leaves its box at %.12g, before %.12g, and %d nodes are free",at(t).c_str(),id,tw,v.tau,left0); if(exact && must >= 0 && df != must) c.fail("forced","%s: node %d counts %+d forced extensions, expected %+d",at(t).c_str(),id,df,must); if(exact && must == 1) c.fault("probe_forced_extension_judged"); if(df < 0 || df > (out && tight)) c.fail("forced","%s: node %d counts %+d forced extensions",at(t).c_str(),id,df); v.fe = nv[(size_t)id].fe; if(v.sd < 0){ v.c[z.l]++; break; } id = x[v.sd] <= v.sv ? v.l : v.r; }
			std::string w = differ(t,e,old,x); if(w.size()) c.fail("step","%s: %s",at(t).c_str(),w.c_str()); for(auto const& [id,v] : e) if(nv[(size_t)id].fe != v.fe) c.fail("forced","%s: node %d counts forced extensions of samples that did not reach it",at(t).c_str(),id); return false; }
		int P = -1, S = -1; for(int id : fresh) (nv[(size_t)id].sd >= 0 ? P : S) = id; if(fresh.size() != 2 || P < 0 || S < 0 || nv[(size_t)S].p != P) c.fail("step","%s: one sample added %zu nodes",at(t).c_str(),fresh.size());
		NodeView const& np = nv[(size_t)P]; int up = np.p; if(up >= 0 && !old.count(up)) c.fail("step","%s: the new node %d hangs below node %d",at(t).c_str(),P,up); int id = up < 0 ? root : nv[(size_t)up].l == P ? old[up].l : old[up].r; NodeView const o = old[id]; double pt = up < 0 ? 0 : old[up].tau; int d = np.sd; double v = np.sv;
		if(!(np.tau >= pt && np.tau <= o.tau) || nv[(size_t)S].tau != q.life) c.fail("step","%s: new node at time %.17g below %.17g and above %.17g, its leaf at %.17g",at(t).c_str(),np.tau,pt,o.tau,nv[(size_t)S].tau);
		for(int a = root; a != id;){ NodeView& m = e[a]; double tw; if(exact && wait(old[a],tw) == 1) c.fail("step","%s: node %d was split, not node %d above it, which the sample leaves in time",at(t).c_str(),id,a); if(exact && nv[(size_t)a].used() && nv[(size_t)a].fe != old[a].fe) c.fail("forced","%s: node %d counts a forced extension although nodes are free",at(t).c_str(),a); int nx = x[m.sd] <= m.sv ? m.l : m.r; if(a == up && nx != id) c.fail("step","%s: node %d was split, the sample did not reach it",at(t).c_str(),id); grow(m,x,q.fep); if(m.sd < 0) c.fail("step","%s: node %d was split, the sample did not reach it",at(t).c_str(),id); a = nx; }
		if(up >= 0) (e[up].l == id ? e[up].l : e[up].r) = P; NodeView m = np; m.p = up; for(int k = 0; k < fc; ++k){ m.lo[k] = std::min(o.lo[k],x[k]); m.up[k] = std::max(o.up[k],x[k]); }
		std::string first; bool out = !inside(o,x); double when = 0; if(exact && out){ if(wait(o,when) == 0) c.fail("step","%s: node %d was split at %.12g, the sample leaves its box at %.12g only",at(t).c_str(),id,o.tau,when); if(!(std::fabs(np.tau - when) <= 1e-9*when)) c.fail("step","%s: node %d was split at time %.12g instead of %.12g",at(t).c_str(),id,np.tau,when); }
		int should = -1; if(exact && out){ if(q.fes == SPLIT_TRIGGER_NONE) should = 0; else if(q.fes == SPLIT_TRIGGER_POSITIVE) should = o.fe > 0; else { double all = 0; if(q.fes == SPLIT_TRIGGER_TOTAL) all = (double)(n - 1); else for(int a = root;;){ all += old[a].fe; if(old[a].sd < 0) break; a = x[old[a].sd] <= old[a].sv ? old[a].l : old[a].r; } should = all <= 0 ? 0 : 2.0*o.fe == all ? -1 : 2.0*o.fe > all; } }
		auto middle = [&](double a1, double a2){ if(exact && !(std::fabs(v - (a1 + a2)/2) <= 1e-9*(std::fabs(a1) + std::fabs(a2)))) c.fail("step","%s: node %d was split at %.12g instead of the middle of [%.12g, %.12g]",at(t).c_str(),id,v,a1,a2); };
		if(out && ((x[d] > o.up[d] && v >= o.up[d] && v <= x[d]) || (x[d] < o.lo[d] && v <= o.lo[d] && v >= x[d])) && !(q.fes == SPLIT_TRIGGER_POSITIVE && o.fe > 0)){ Nodes f = e; bool right = x[d] > o.up[d]; m.l = right ? id : S; m.r = right ? S : id; f[P] = m; NodeView s = nv[(size_t)S]; for(int k = 0; k < fc; ++k) s.lo[k] = s.up[k] = x[k]; for(int k = 0; k < lc; ++k) s.c[k] = k == z.l; s.p = P; f[S] = s; f[id].p = P; first = differ(t,f,old,x); if(first.empty()){ if(should == 1) c.fail("step","%s: node %d with %d forced extensions was extended, it had to be split",at(t).c_str(),id,o.fe); middle(right ? o.up[d] : x[d],right ? x[d] : o.lo[d]); if(exact) c.fault("probe_step_fully_determined"); if(nv[(size_t)S].fe || np.fe) c.fail("forced","%s: new nodes start with %d and %d forced extensions",at(t).c_str(),np.fe,nv[(size_t)S].fe); return false; } }
		bool byforce = q.fes != SPLIT_TRIGGER_NONE && out && o.fe > 0, bybary = false; double bb = NAN;
		if(q.sh != SPLIT_HELPER_NONE && o.sd < 0 && !out){ double b = 0, n2 = 0; if(q.sh == SPLIT_HELPER_AVG) b = fsum[d]/fcount; else { for(auto const& [i,y] : old) if(y.sd < 0){ double k2 = 0; for(int k = 0; k < lc; ++k) k2 += y.c[k]; b += (y.lo[d] + y.up[d])/2*k2; n2 += k2; } b /= n2; } double w = 1e-9*(std::fabs(o.lo[d]) + std::fabs(o.up[d])) + (q.sh == SPLIT_HELPER_AVG ? 1e-9*std::ldexp(1.0,2*far) : 0), a1 = std::min(b,x[d]) - w, a2 = std::max(b,x[d]) + w; bb = b; bybary = std::isnan(b) || (v >= a1 && v <= a2 && b >= o.lo[d] - w && b <= o.up[d] + w); }
		if(!byforce && !bybary) c.fail("step","%s: node %d ([%.12g, %.12g] on feature %d) was split at %.12g for a sample at %.12g. %s",at(t).c_str(),id,o.lo[d],o.up[d],d,v,x[d],first.c_str());
		if(!(v >= o.lo[d] - 1e-12*std::fabs(o.lo[d]) && v <= o.up[d] + 1e-12*std::fabs(o.up[d]))) c.fail("step","%s: node %d is split inside its box [%.12g, %.12g] at %.12g",at(t).c_str(),id,o.lo[d],o.up[d],v);
		if(exact && out){ if(should == 0) c.fail("step","%s: node %d with %d forced extensions was split inside its box, it had to be extended",at(t).c_str(),id,o.fe); middle(o.lo[d],o.up[d]); double w = 0, c0 = 0, c1 = 0; for(int k = 0; k < fc; ++k){ double y = o.up[k] - o.lo[k]; w += y; if(k < d) c0 += y; if(k <= d) c1 += y; } if(w > 0 && !((c0/w <= 0.5 + 1e-9 && c1/w >= 0.5 - 1e-9))) c.fail("step","%s: node %d was split on feature %d, which holds [%.4g, %.4g] of the width of its box",at(t).c_str(),id,d,c0/w,c1/w); c.fault("probe_step_fully_determined"); }
		if(exact && !out && bybary && !std::isnan(bb) && q.sh == SPLIT_HELPER_WEIGHTED) middle(bb,x[d]); if(exact && !out && !(std::fabs(np.tau - (pt + o.tau)/2) <= 1e-9*(pt + o.tau))) c.fail("step","%s: node %d between %.12g and %.12g was split at time %.12g",at(t).c_str(),id,pt,o.tau,np.tau);
		inner[(size_t)t] = 1; c.fault(bybary ? "probe_split_at_barycenter" : "probe_split_of_forced_node");
		for(int left = 0; left < 2; ++left){ Nodes f = e; std::vector<int> outc((size_t)lc,0); long lo = 0, hi = 0; bool tie = false; int in = clip(f,id,true,d,v,left,outc,lo,hi,tie); if(tie){ c.fault("probe_rounding_tie_not_judged"); return true; }
			NodeView s = nv[(size_t)S]; for(int k = 0; k < fc; ++k){ s.lo[k] = o.lo[k]; s.up[k] = o.up[k]; } (left ? s.lo : s.up)[d] = v; for(int k = 0; k < lc; ++k) s.c[k] = outc[(size_t)k]; s.p = P; f[S] = s; m.l = left ? in : S; m.r = left ? S : in; f[P] = m; f[in].p = P;
			for(int a = x[d] <= v ? m.l : m.r;;){ NodeView& y = f[a]; grow(y,x,1); if(y.sd < 0){ y.c[z.l]++; break; } a = x[y.sd] <= y.sv ? y.l : y.r; }
			std::string w = differ(t,f,old,x); if(w.size()){ if(first.empty() || (np.l == S) == !left) first = w; continue; }
			if(left ? hi <= 0 : lo > 0) c.fail("step","%s: node %d keeps the side of the split with fewer samples",at(t).c_str(),id); int fi = nv[(size_t)id].fe, fs = nv[(size_t)S].fe; if(f.count(id) && o.fe >= 0){ if(np.fe || (q.fed == FE_DISTRIBUTION_ZERO && (fi || fs)) || (q.fed == FE_DISTRIBUTION_SPLIT && (fi != o.fe/2 || fs != o.fe/2)) || (q.fed == FE_DISTRIBUTION_DECREMENT && (fs || fi != o.fe - 1)) || (q.fed == FE_DISTRIBUTION_PROPORTIONAL && !share(o.fe,fi,fs,f.count(id) ? total(e,id) : 0,left ? lo : -hi,left ? hi : -lo))) c.fail("forced","%s: the %d forced extensions of node %d became %d, %d and %d",at(t).c_str(),o.fe,id,np.fe,fi,fs); }
			return true; }
		c.fail("step","%s: node %d was split on feature %d at %.12g, %s",at(t).c_str(),id,d,v,first.c_str()); return true; }
	bool trim_seen(std::vector<NodeView> const& old){ for(int i = 0; i < N; ++i) if(old[(size_t)i].used() && old[(size_t)i].sd >= 0 && (!nv[(size_t)i].used() || nv[(size_t)i].tau != old[(size_t)i].tau || nv[(size_t)i].sv != old[(size_t)i].sv)) return true; return false; }
	void trim(){ std::vector<NodeView> old = nv; std::vector<TreeShape> olds = ts; std::vector<int> r0; for(int t = 0; t < q.trees; ++t) r0.push_back(f->root(t)); f->trim(); look(); audit();
		for(int t = 0; t < q.trees; ++t){ TreeShape const &a = olds[(size_t)t], &b = ts[(size_t)t]; std::vector<int> gone; for(int id : a.order) if(!nv[(size_t)id].used()) gone.push_back(id);
			double small = -1, sum = 0; auto score = [&](NodeView const& v){ double s = 0; if(q.tt == TRIM_COUNT) for(int k = 0; k < lc; ++k) s += v.c[k]; else s = v.fading; return s; };
			for(int id : a.order) if(old[(size_t)id].sd < 0){ double s = score(old[(size_t)id]); sum += s; if(small < 0 || s < small) small = s; }
			bool must = a.order.size() >= 3 && a.depth <= 98 && q.tt != TRIM_NONE && (q.tt == TRIM_RANDOM || sum <= 0 || small/sum <= q.mts);
			if(gone.empty()){ if(must) c.fail("no-trim","%s: trimming removed nothing from a tree of %zu nodes",at(t).c_str(),a.order.size()); if(a.order != b.order) c.fail("trim","%s: trimming changed a tree without removing a node",at(t).c_str()); continue; }
			if(q.tt == TRIM_NONE) c.fail("trim","%s: trimming is off but %zu nodes were removed",at(t).c_str(),gone.size());
			if(gone.size() != 2) c.fail("trim","%s: trimming removed %zu nodes",at(t).c_str(),gone.size());
			int leaf = -1, par = -1; for(int id : gone) if(old[(size_t)id].sd < 0) leaf = id; else par = id; if(leaf < 0 || par < 0 || old[(size_t)leaf].p != par) c.fail("trim","%s: trimming removed nodes %d and %d, not a leaf and its parent",at(t).c_str(),gone[0],gone[1]);
			if(q.tt == TRIM_COUNT || q.tt == TRIM_FADING) if(score(old[(size_t)leaf]) > small) c.fail("trim","%s: trimming removed a leaf of score %.12g, the smallest is %.12g",at(t).c_str(),score(old[(size_t)leaf]),small); if((q.tt == TRIM_COUNT || q.tt == TRIM_FADING) && sum > 0 && small/sum > q.mts*(1 + 1e-9)) c.fail("trim","%s: trimming removed a leaf that holds %.4g of all, the limit is %.4g",at(t).c_str(),small/sum,q.mts);
			std::vector<int> want; for(int id : a.order) if(id != leaf && id != par) want.push_back(id); if(want != b.order) c.fail("trim","%s: trimming changed the order of the remaining nodes",at(t).c_str());
			for(int id : want){ NodeView const &x = old[(size_t)id], &y = nv[(size_t)id]; bool same = x.sd == y.sd && x.sv == y.sv && x.tau == y.tau; for(int k = 0; k < fc; ++k) same &= x.lo[k] == y.lo[k] && x.up[k] == y.up[k]; if(x.sd < 0) for(int k = 0; k < lc; ++k) same &= x.c[k] == y.c[k]; if(!same) c.fail("trim","%s: trimming changed node %d that it did not remove",at(t).c_str(),id); }
			trimmed = true; c.fault("explicit_trim"); if(par == r0[(size_t)t]) c.fault("probe_trim_beheaded_the_tree"); } }
	// C27: the posterior of one tree, from the nodes as they are
	int count(int id, int k){ NodeView const& v = nv[(size_t)id]; return v.sd < 0 || q.et == EXTEND_GHOST ? v.c[k] : std::min(1,count1(v.l,k)) + std::min(1,count1(v.r,k)); }
	int count1(int id, int k){ NodeView const& v = nv[(size_t)id]; return v.sd < 0 || q.et == EXTEND_GHOST ? v.c[k] : count1(v.l,k) > 0 || count1(v.r,k) > 0; }
	bool posterior(int t, double const* x, double* S){ double G[ML], apart = 1, pt = 0; for(int k = 0; k < lc; ++k){ G[k] = q.base; S[k] = 0; } int id = f->root(t); if(id < 0){ for(int k = 0; k < lc; ++k) S[k] = q.base; return true; }
		for(;;){ NodeView const& v = nv[(size_t)id]; double e = 0, D = v.tau - pt, n = 0, m = 0, cn[ML]; for(int i = 0; i < fc; ++i) e += x[i] > v.up[i] ? x[i] - v.up[i] : x[i] < v.lo[i] ? v.lo[i] - x[i] : 0; for(int k = 0; k < lc; ++k){ cn[k] = count(id,k); n += cn[k]; m += cn[k] > 0; }
			double pb = -std::expm1(-e*D); if(pb > 0 && n == 0 && q.et == EXTEND_BARYCENTER){ for(int k = 0; k < lc; ++k) S[k] += apart*pb*G[k]; c.fault("probe_empty_node_reached"); } else if(pb > 0){ if(n == 0) return false; double d = e/(e + q.disc)*std::expm1(-(e + q.disc)*D)/std::expm1(-e*D); for(int k = 0; k < lc; ++k) S[k] += apart*pb*((cn[k] > 0 ? (1-d)/m : 0) + d*G[k]); }
			double g = std::exp(-q.disc*D); if(n > 0) for(int k = 0; k < lc; ++k) G[k] = (cn[k] - g*(cn[k] > 0) + g*m*G[k])/n; apart *= 1 - pb; if(v.sd < 0){ for(int k = 0; k < lc; ++k) S[k] += apart*G[k]; return true; } pt = v.tau; id = x[v.sd] <= v.sv ? v.l : v.r; } }
	void scores(Pt const& z, int use, Rng& r){ (void)r; double s[8], ref[ML] = {0}, P[ML]; for(double& v : s) v = -7; int l = f->predict(z.x,s,use); look(); int T = use < 0 ? q.trees : use; bool known = true; for(int t = 0; t < T; ++t){ known &= posterior(t,z.x,P); for(int k = 0; k < lc; ++k) ref[k] += P[k]/T; }
		if(!known){ c.fail("empty","%s: a node of the tree counts no sample",at(0).c_str()); c.fault("probe_empty_node_reached"); return; }
		double sum = 0; for(int k = 0; k < lc; ++k){ sum += s[k]; if(!(std::fabs(s[k] - ref[k]) <= 1e-9)) c.fail("score","%s: score of label %d is %.17g, the posterior is %.17g (base %.3g, discount %.3g, lifetime %g, %d trees used)",at(0).c_str(),k,s[k],ref[k],q.base,q.disc,q.life,T); if(s[k] < -1e-9 || s[k] > 1 + 1e-9) c.fail("range","%s: score %.17g of label %d",at(0).c_str(),s[k],k); if(s[k] > s[l]) c.fail("label","%s: predicted label %d has score %.17g, label %d has %.17g",at(0).c_str(),l,s[l],k,s[k]); }
		if(q.base == 1.0/lc && !(std::fabs(sum - 1) <= 1e-9)) c.fail("sum","%s: scores sum to %.17g",at(0).c_str(),sum); if(q.base == 1.0/lc) c.fault("probe_distribution_judged"); c.fault("probe_predictions_judged"); }
	void predict(Pt const& z){ std::vector<NodeView> old = nv; double s[8]; int l = f->predict(z.x,s); if(l < 0 || l >= lc) c.fail("label","label %d",l); look(); audit(); c.log((uint64_t)l); c.logd(s[0]);
		for(int i = 0; i < N; ++i){ NodeView const &x = old[(size_t)i], &y = nv[(size_t)i]; bool same = x.sd == y.sd && x.sv == y.sv && x.tau == y.tau && x.l == y.l && x.r == y.r && x.p == y.p; for(int k = 0; k < fc; ++k) same &= x.lo[k] == y.lo[k] && x.up[k] == y.up[k]; if(x.sd < 0) for(int k = 0; k < lc; ++k) same &= x.c[k] == y.c[k]; if(!same) c.fail("predict","after %ld samples predict() changed node %d",n,i); }
		if(q.et != EXTEND_GHOST) for(auto const& t : ts) for(int id : t.order) if(nv[(size_t)id].sd >= 0) for(int k = 0; k < lc; ++k){ NodeView const& v = nv[(size_t)id]; int e = std::min(1,nv[(size_t)v.l].c[k]) + std::min(1,nv[(size_t)v.r].c[k]); if(v.c[k] != e) c.fail("counter","after %ld samples and predict(), node %d counts %d for label %d, its children say %d",n,id,v.c[k],k,e); } }
	void go(){ audit(); for(size_t si = 0; si < p.steps.size(); ++si){ Step const& s = p.steps[si]; c.step = (long)si; Rng r(s.rs); rs.set(s.rs ^ 99,s.rm);
			if(s.op == TRAIN) for(int k = 0; k < (int)(s.arg(0) % 400); ++k) train(point(r,(int)s.arg(1)));
			else if(s.op == AGAIN) for(int k = 0; k < (int)(s.arg(0) % 60); ++k){ train(seen.empty() ? point(r,0) : seen[(size_t)r.below((int64_t)seen.size())]); c.fault("duplicated_sample"); }
			else if(s.op == CHAIN){ Pt z = point(r,4); for(int k = 0; k < (int)(s.arg(0) % 200); ++k){ for(int i = 0; i < fc; ++i) z.x[i] = (r.chance(0.5) ? -1 : 1)*std::ldexp(1.0,10 + 2*k); z.l = (int)r.below(lc); train(z); } far = std::max(far,12 + 2*(int)(s.arg(0) % 200)); c.fault("outliers_growing_geometrically"); }
			else if(s.op == GROW){ rs.set(s.rs ^ 99,0); bool can = q.life >= 1000 && !limited() && q.mgmt != 2 && q.mgmt != 4; for(int k = 0; k < 20*N + 100 && N - used() >= (q.et == EXTEND_NONE ? 3 : 2) + (N < 3 ? 99 : 0); ++k){ Pt z = point(r,4); if(k % 4 == 3 && far < 900){ ++far; for(int i = 0; i < fc; ++i) z.x[i] = (r.chance(0.5) ? -1 : 1)*std::ldexp(1.0,far); } train(z); } if(far >= 900) can = false; int free = N - used(); if(can && N >= q.trees + 2 && free >= (q.et == EXTEND_NONE ? 3 : 2)) c.fail("not-reused","%s: the forest does not grow although %d of %d nodes are free",at(0).c_str(),free,N); if(can) c.fault(trimmed ? "probe_regrown_to_capacity_after_trim" : "probe_grown_to_capacity"); }
			else if(s.op == PREDICT) for(int k = 0; k < (int)(s.arg(0) % 10); ++k) { Pt z = k % 2 && !seen.empty() ? seen[(size_t)r.below((int64_t)seen.size())] : point(r,k); if(c27){ if(k % 3 == 2) for(int i = 0; i < fc; ++i) z.x[i] += std::ldexp(r.gauss(),-(int)r.below(30)); scores(z,r.chance(0.3) ? (int)r.range(1,q.trees) : -1,r); } else predict(z); }
			else if(s.op == TRIM) for(int k = 0; k < (int)(1 + s.arg(0) % 12); ++k) trim();
			for(int t = 0; t < q.trees; ++t) refine(t); reports(); c.state(mix(mix((uint64_t)used(),(uint64_t)(q.et*8 + q.tt)),mix((uint64_t)n,c.h))); }
		int d = 0; for(auto const& t : ts) d = std::max(d,t.depth); if(used() >= N - 1) c.fault("pool_exhausted"); rand_faults(c,rs); c.nontrivial = n >= 20 && (used() >= N - 2 || trimmed || limited()); }
};
// ------------------------------------------------------------------ C26
// Every step of every tree of an ensemble against the Mondrian process; the draws are judged by their distribution over the ensemble.
struct Tally { double d = 0, v = 0; long n = 0; void add(double got, double expect, double var){ d += got - expect; v += var; ++n; } double z() const { return v > 40 ? std::fabs(d)/std::sqrt(v) : 0; } }; // sums of bounded differences of the conditional expectation
struct Bins { double b[10] = {0}; long n = 0; void add(double u){ int k = (int)(u*10); if(k > 9) k = 9; if(k < 0) k = 0; b[k]++; ++n; } double worst() const { double w = 0; if(n < 500) return 0; for(double q : b) w = std::max(w,std::fabs(q - n*0.1)/std::sqrt(n*0.09)); return w; } };
void process(Plan const& p, Ctx& c){ int shape = (int)(p.c(0) % 3), fc = FCN[shape], lc = LCN[shape]; static const double LIFE[6] = {0.3,1,2,4,8,1e5};
	Params q; q.life = LIFE[p.c(1) % 6]; q.base = 0.5; q.disc = 0.2; q.trees = (int)(1 + p.c(2) % 5); q.mgmt = (int)(p.c(3) % 5); if(q.mgmt == 2) q.mgmt = 3; if(q.mgmt == 4) q.mgmt = 0; q.limit = -1; q.et = (int)(p.c(4) % 6); q.tt = (int)(p.c(5) % 4); q.mts = 1; q.fc = 1; if(q.et == EXTEND_BARYCENTER){ q.fed = (int)(p.c(11) % 4); q.fes = (int)(p.c(11)/4 % 4); q.sh = (int)(p.c(11)/16 % 3); }
	RandSrc rs; src = &rs; rs.set((uint64_t)p.c(6),0); Rng w((uint64_t)p.c(7)); int kind = (int)(p.c(8) % 4), samples = std::min((int)(4 + p.c(9) % 40),240/(2*q.trees)), forests = (int)(p.c(10) % 5000);
#ifdef __SANITIZE_ADDRESS__
	forests %= 200;
#endif
	double cen[6][MF], scale[MF]; for(auto& z : cen) for(double& v : z) v = 2*w.uni() - 1; for(double& v : scale) v = kind == 3 ? std::ldexp(1.0,(int)w.range(-3,3)) : 1;
	Tally split[4][3], dim[MF], below, timev; Bins when, where, pick; Tally cross[3]; double lastt[8]; Tally between; long steps = 0, nsplit = 0;
	for(int r = 0; r < forests; ++r){ std::unique_ptr<ITree> f(make(shape,6,q,mix((uint64_t)p.c(7),(uint64_t)r) | 4)); int N = f->nodes(); auto look = [&](std::vector<NodeView>& v){ v.resize((size_t)N); for(int i = 0; i < N; ++i) v[(size_t)i] = f->node(i); }; std::vector<NodeView> a, b; look(a); c.sim_time += samples;
		for(int k = 0; k < samples; ++k){ double x[MF] = {0}; int g = (int)w.below(6), l = (int)w.below(lc); for(int i = 0; i < fc; ++i){ double v = kind == 0 ? cen[g][i] + 0.2*w.gauss() : kind == 1 ? (double)w.range(-4,4)/4 : 2*w.uni() - 1; x[i] = std::floor(v*scale[i]*1024 + 0.5)/1024; }
			std::vector<int> r0; for(int t = 0; t < q.trees; ++t) r0.push_back(f->root(t)); bool ok = f->train(x,l); look(b); c.log(ok); std::vector<char> touched((size_t)N,0); double ut[8]; for(double& v : ut) v = -1;
			if(!ok) c.fail("return","train() returned false although nodes are free");
			for(int t = 0; t < q.trees; ++t){ int id = r0[(size_t)t]; if(id < 0){ id = f->root(t); if(id < 0 || a[(size_t)id].used()) c.fail("root","tree %d has root %d after its first sample",t,id); NodeView const& y = b[(size_t)id]; touched[(size_t)id] = 1; if(y.tau != q.life || y.sd >= 0 || y.p != -1) c.fail("root","first node of tree %d: lifetime %.12g, split %d, parent %d",t,y.tau,y.sd,y.p); for(int i = 0; i < fc; ++i) if(y.lo[i] != x[i] || y.up[i] != x[i]) c.fail("root","the box of the first node of tree %d is not its sample",t); continue; }
				for(int depth = 0;; ++depth){ NodeView const& o = a[(size_t)id]; NodeView const& y = b[(size_t)id]; double pt = o.p < 0 ? 0 : a[(size_t)o.p].tau, e = 0, ext[MF]; for(int i = 0; i < fc; ++i){ ext[i] = std::max(0.0,o.lo[i] - x[i]) + std::max(0.0,x[i] - o.up[i]); e += ext[i]; }
					double P = 1 - std::exp(-e*(o.tau - pt)); bool did = y.p != o.p; ++steps; touched[(size_t)id] = 1; if(P <= 0 && did) c.fail("split","a node whose box the sample does not leave (or without remaining lifetime) was split");
					split[std::min(depth,2)][P < 0.1 ? 0 : P < 0.6 ? 1 : 2].add(did,P,P*(1-P)); split[3][o.sd < 0].add(did,P,P*(1-P));
					if(did){ ++nsplit; int np = y.p; if(np < 0 || np >= N || a[(size_t)np].used()) c.fail("structure","node %d has the new parent %d, which is not a new node",id,np); NodeView const& m = b[(size_t)np]; touched[(size_t)np] = 1; if(m.p != o.p) c.fail("structure","the node above node %d was not put in its place",id);
						if(m.sd < 0 || m.sd >= fc || ext[m.sd] <= 0) c.fail("structure","split on feature %d, on which the sample is inside the box",m.sd); if(!(m.tau >= pt && m.tau < o.tau)) c.fail("structure","split at time %.17g, outside ]%.17g, %.17g[",m.tau,pt,o.tau);
						bool up = x[m.sd] > o.up[m.sd]; double lo = up ? o.up[m.sd] : x[m.sd], hi = up ? x[m.sd] : o.lo[m.sd]; if(!(m.sv >= lo && m.sv <= hi)) c.fail("structure","split value %.17g outside the gap [%.17g, %.17g]",m.sv,lo,hi); int sib = up ? m.r : m.l, old = up ? m.l : m.r; if(old != id || sib < 0 || sib >= N || a[(size_t)sib].used()) c.fail("structure","children %d and %d of the new node above %d",m.l,m.r,id);
						NodeView const& s = b[(size_t)sib]; touched[(size_t)sib] = 1; if(s.sd >= 0 || s.p != np || s.tau != q.life) c.fail("structure","the new leaf: split %d, parent %d, lifetime %.12g",s.sd,s.p,s.tau); for(int i = 0; i < lc; ++i) if(s.c[i] != (i == l)) c.fail("structure","the new leaf counts %d samples of label %d",s.c[i],i);
						for(int i = 0; i < fc; ++i){ if(s.lo[i] != x[i] || s.up[i] != x[i]) c.fail("structure","the box of the new leaf is not the sample"); if(y.lo[i] != o.lo[i] || y.up[i] != o.up[i]) c.fail("structure","the box of the node below the split changed"); if(m.lo[i] != std::min(o.lo[i],x[i]) || m.up[i] != std::max(o.up[i],x[i])) c.fail("structure","the box of the new node does not span its children"); }
						double u1 = (1 - std::exp(-e*(m.tau - pt)))/P, u2 = (m.sv - lo)/(hi - lo), cum = 0, u3 = 0; for(int i = 0; i < fc; ++i){ double pr = ext[i]/e; if(pr > 0) dim[i].add(i == m.sd,pr,pr*(1-pr)); if(i == m.sd) u3 = cum + pr*w.uni(); cum += pr; } when.add(u1); where.add(u2); pick.add(u3); timev.add(u1,0.5,1/12.0); below.add(up ? u2 : 1-u2,0.5,1/12.0);
						cross[0].add((u1-.5)*(u2-.5),0,1/144.0); cross[1].add((u2-.5)*(u3-.5),0,1/144.0); cross[2].add((u1-.5)*(u3-.5),0,1/144.0); ut[t] = u1; break; }
					if(y.sd != o.sd || y.sv != o.sv || y.tau != o.tau) c.fail("structure","node %d changed without being split",id); for(int i = 0; i < fc; ++i) if(y.lo[i] != std::min(o.lo[i],x[i]) || y.up[i] != std::max(o.up[i],x[i])) c.fail("structure","the box of node %d does not span what went through it",id);
					if(o.sd < 0){ for(int i = 0; i < lc; ++i) if(y.c[i] != o.c[i] + (i == l)) c.fail("structure","leaf %d went from %d to %d samples of label %d",id,o.c[i],y.c[i],i); break; } id = x[o.sd] <= o.sv ? o.l : o.r; }
				for(int z = 0; z < t; ++z) if(ut[z] >= 0 && ut[t] >= 0) between.add((ut[z]-.5)*(ut[t]-.5),0,1/144.0); if(ut[t] >= 0){ c.logd(ut[t]); } }
			(void)lastt; for(int i = 0; i < N; ++i) if(!touched[(size_t)i]){ NodeView const &o = a[(size_t)i], &y = b[(size_t)i]; bool same = o.sd == y.sd && o.sv == y.sv && o.tau == y.tau; for(int k2 = 0; k2 < fc && o.used(); ++k2) same &= o.lo[k2] == y.lo[k2] && o.up[k2] == y.up[k2]; if(o.used() ? !same : y.used()) c.fail("structure","node %d changed although the sample did not reach it",i); }
			a.swap(b); } 
		if(!f->guards_ok()) c.fail("guard","memory outside the forest was written"); c.state(mix(c.h,(uint64_t)r)); }
	double const Z = 7.5; char const* dn[4] = {"the root","a child of the root","a deeper node","a node (by kind)"}; for(int i = 0; i < 4; ++i) for(int j = 0; j < 3; ++j){ Tally const& t = split[i][j]; if(t.z() > Z) c.fail("distribution","%s is split %+.1f times more often than it should in %ld steps (%.1f standard deviations, class %d)",dn[i],t.d,t.n,t.z(),j); }
	for(int i = 0; i < fc; ++i) if(dim[i].z() > Z) c.fail("distribution","feature %d is chosen %+.1f times more often than it should in %ld splits (%.1f standard deviations)",i,dim[i].d,dim[i].n,dim[i].z());
	if(when.worst() > Z || timev.z() > Z) c.fail("distribution","the times of %ld splits are not exponential (%.1f standard deviations)",when.n,std::max(when.worst(),timev.z())); if(where.worst() > Z || below.z() > Z) c.fail("distribution","the places of %ld splits are not uniform (%.1f standard deviations)",where.n,std::max(where.worst(),below.z())); if(pick.worst() > Z) c.fail("distribution","the features of %ld splits do not follow the extension (%.1f standard deviations)",pick.n,pick.worst());
	for(auto& t : cross) if(t.z() > Z) c.fail("distribution","time, feature and place of %ld splits depend on each other (%.1f standard deviations)",t.n,t.z()); if(between.z() > Z) c.fail("distribution","the trees of one forest split at related times (%.1f standard deviations)",between.z());
	c.fault("rand_uniform31_draws",rs.used[0]); c.fault("probe_tree_steps",(uint64_t)steps); c.fault("probe_splits_judged",(uint64_t)nsplit); c.nontrivial = nsplit > 200; }
}
HarnessDef sim::harness(){ HarnessDef h; h.name = "coarse"; h.ops = {"train","again","grow","chain","predict","trim"};
	h.gen = [](Rng& r, Plan& p, std::string const& prop, bool th){ if(prop == "C26"){ p.cfg = { r.below(3), r.below(6), r.below(5), r.below(5), r.below(6), r.below(4), (int64_t)(r.u64() >> 30), (int64_t)(r.u64() >> 30), r.below(4), r.below(40), r.chance(th ? 0.2 : 0.07) ? r.range(1000,th ? 4900 : 2500) : r.range(30,80), r.below(48) }; return; } bool calm = r.chance(0.5); int bad = (int)r.below(RM_COUNT), gentle = (int)r.below(3); auto rm = [&](){ return calm ? 0 : r.chance(0.5) ? bad : (int)r.below(RM_COUNT); }; int n = (int)r.range(2,th ? 30 : 12); bool c16 = prop == "C16", big = false;
		p.cfg = { r.below(3), r.below(40) == 0 ? 6 : r.below(6), r.below(5), r.chance(0.4) ? r.range(6,7) : r.below(6), r.below(20), r.below(20), r.below(5), r.below(24), r.chance(0.25) ? 5 : r.below(5), r.below(4), r.below(8), (int64_t)(r.u64() >> 40), r.below(6), r.below(192) }; bool bary = p.cfg[8] == 5; if(bary && gentle == 0){ calm = false; bad = RM_HALF; } if(bary && r.chance(0.7)){ p.cfg[9] = r.range(1,3); if(p.cfg[2] > 1) p.cfg[2] = r.below(2); if(r.chance(0.7)) p.cfg[3] = r.range(4,6); } big = p.cfg[1] == 6; if(big){ p.cfg[7] = 1; p.cfg[2] = 0; p.cfg[3] = 7; }
		for(int i = 0; i < n; ++i){ int k = (int)r.below(16); if(k < 5) p.add(TRAIN,{r.below(8) == 0 ? r.range(100,300) : r.range(1,40),r.below(5)},r.u64() >> 16,rm()); else if(k < 7) p.add(AGAIN,{r.range(1,20)},r.u64() >> 16,rm()); else if(k < 9) p.add(GROW,{0},r.u64() >> 16,rm()); else if(k < 10) p.add(CHAIN,{big ? 180 : r.range(1,40)},r.u64() >> 16,rm()); else if(k < (bary ? 11 : 13) || (c16 && !bary)) p.add(PREDICT,{r.range(1,prop == "C27" ? 10 : 6),0},r.u64() >> 16,rm()); else p.add(TRIM,{r.below(12)},r.u64() >> 16,rm()); } };
	h.exec = [](Plan const& p, Ctx& c){ Plan q = p; if(q.prop == "C26"){ for(auto& v : q.cfg) v = std::llabs(v); q.cfg.resize(12); process(q,c); return; } for(auto& v : q.cfg) v = std::llabs(v); q.cfg.resize(14); Run r(q,c); r.go(); };
	return h; }
