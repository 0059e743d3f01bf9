#pragma once
#include "models.hpp"
namespace models {
template<class FT> void blob(sim::Rng& r, uint64_t cfg, FT* x, int fc, int& l, int lc){ int k = (int)r.below(5); l = r.below(8) == 0 ? (int)r.below(lc) : k % lc; double u = std::is_integral<FT>::value ? 50 : 1; for(int f = 0; f < fc; ++f) x[f] = (FT)(u*(std::cos((double)(k*3 + f) + (double)(cfg % 100)) + (r.below(12) == 0 ? 20*r.gauss() : 0.2*r.gauss()))); }
// one random call to a forest
template<class FT, int FC, int LC, class M, class T> void forest_step(M& m, T& t, sim::Rng& r, Log& o){ (void)m; int k = (int)(1 + r.below(10)); for(int i = 0; i < k; ++i){ FT x[FC]; int l; blob<FT>(r,m.cfg,x,FC,l,LC); if(r.below(5)){ bool b; { In in; b = t.train(x,l); } o.add(b); } else { double s[LC]; int q; { In in; q = t.predict(x,s); } o.add(q); for(double v : s) o.add(v); } } }
template<class FT, int FC, int LC, class M, class T> void forest_observe(M& m, T& t, Log& o){ sim::Rng r(8); for(int i = 0; i < 6; ++i){ FT x[FC]; int l; blob<FT>(r,m.cfg,x,FC,l,LC); double s[LC]; int q; { In in; q = t.predict(x,s); } o.add(q); for(double v : s) o.add(v); } }
}
