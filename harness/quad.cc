#include "drv.hh"
#include "util/quadrature_encoder.hh"

template<bool I>
struct O : Obj {
	QuadratureEncoder<I> q;
	DUP(q)
	void op(const std::string &op, const Args &a, Out &r) override
	{
		auto d = q.get_motion(a[0], a[1]);
		// the enumerators are the motion itself: +1, -1, 0
		int n = d == QuadratureEncoder<I>::CW ? 1 : d == QuadratureEncoder<I>::CCW ? -1 : d == QuadratureEncoder<I>::None ? 0 : 99;
		r << n << (int)d;
	}
};

std::unique_ptr<Obj> make(const Args &c)
{
	if (c[0])
		return std::make_unique<O<true>>();
	return std::make_unique<O<false>>();
}
