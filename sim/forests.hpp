// Common interface of the three Mondrian forests: each library header is compiled in its own translation unit.
#pragma once
#include "prelude.hpp"
#include <functional>
#include <algorithm>
#include "core.hpp"
namespace forests {
extern sim::RandSrc* src; // the random source of the forest that is running
struct Fn { static double rand_uniform(){ return src->next(); } static double exp(double x){ return std::exp(x); } static double log(double x){ return std::log(x); } };
struct ShapeA { typedef double FT; static const int FC = 2, LC = 2; };
struct ShapeB { typedef float FT; static const int FC = 3, LC = 3; };
struct ShapeC { typedef int FT; static const int FC = 2, LC = 4; };
struct ShapeD { typedef double FT; static const int FC = 1, LC = 3; };
struct ShapeE { typedef double FT; static const int FC = 5, LC = 2; };
struct ShapeInfo { int fc, lc; int kind; };
static const ShapeInfo info[5] = {{2,2,0},{3,3,1},{2,4,2},{1,3,0},{5,2,0}};
struct IForest { virtual bool train(double const* x, int label) = 0; virtual int predict(double const* x, double* scores) = 0; virtual bool guards_ok() { return true; } virtual ~IForest(){} };
// trees: 1, 3 or 5. budget -1: plenty; otherwise index into the list of budgets; *room returns the approximate number of nodes
IForest* bounded(int shape, int trees, int budget, double life, double base, double disc, uint64_t garbage, int* room);
IForest* coarse(int shape, int trees, int budget, double life, double base, double disc, uint64_t garbage, int* room, int mgmt, int limit);
// the same as coarse without limits, with exactly as many nodes as bounded() has with this budget
IForest* coarse_twin(int shape, int trees, int budget, double life, double base, double disc, uint64_t garbage);
IForest* unbound(int shape, int trees, double life, double base, double disc);
// accounting of the blocks allocated while `counting`
extern bool counting; extern long fail_at; extern long blocks_live, blocks_made, double_frees, failed;
template<class FT, int FC> void conv(double const* x, FT* o){ for(int i = 0; i < FC; ++i) o[i] = (FT)x[i]; }
template<class S, class T> struct Wrap : IForest { sim::Placed<T> p; typename S::FT buf[S::FC];
	template<class... A> Wrap(uint64_t garbage, A... a){ p.make(garbage,a...); }
	bool train(double const* x, int l) override { conv<typename S::FT,S::FC>(x,buf); return p->train(buf,l); }
	int predict(double const* x, double* s) override { conv<typename S::FT,S::FC>(x,buf); return p->predict(buf,s); }
	bool guards_ok() override { return p.guards_ok(); } };
}
