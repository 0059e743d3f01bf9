#include "forests.hpp"
#include "mondrian_unbound.hpp"
using namespace forests;
namespace {
// The forest itself lives on the heap, outside of the accounting; every block it asks for is counted.
struct In { In(){ counting = true; } ~In(){ counting = false; } };
template<class S> struct U : IForest { typedef MondrianForestUnbound<typename S::FT,Fn,S::FC,S::LC> T; T* t; typename S::FT b[S::FC];
	U(int n, double l, double ba, double d){ T* m = (T*)::malloc(sizeof(T)); sim::fill_garbage(m,sizeof(T),77); In in; t = new (m) T(l,ba,d,n); }
	bool train(double const* x, int l) override { conv<typename S::FT,S::FC>(x,b); In in; return t->train(b,l); }
	int predict(double const* x, double* s) override { conv<typename S::FT,S::FC>(x,b); In in; return t->predict(b,s); }
	~U() override { { In in; t->~T(); } ::free(t); } };
}
IForest* forests::unbound(int s, int t, double l, double ba, double d){ switch(s){ case 0: return new U<ShapeA>(t,l,ba,d); case 1: return new U<ShapeB>(t,l,ba,d); case 2: return new U<ShapeC>(t,l,ba,d); case 3: return new U<ShapeD>(t,l,ba,d); default: return new U<ShapeE>(t,l,ba,d); } }
