#include "drv.hh"
#include "util/analyzed_signal.hh"

template<class T>
long long lim(T x)
{
	// the neutral elements, which depend on the type
	if (x == std::numeric_limits<T>::max())
		return 99999;
	if (x && x == std::numeric_limits<T>::lowest())
		return -99999;
	return (long double)x * 256 > 1e18 ? 99998 : (long double)x * 256 < -1e18 ? -99998 : std::llround((long double)x * 256);
}
template<class T>
struct Peak : Obj {
	long long scale, mul;
	Peak(long long s, long long m = 1) : scale{s}, mul{m} {}
	PeakMeter<T> p;
	DUP(p)
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "update")
			p.update((T)a[0] * (T)mul / (T)scale);
		else if (op == "reset")
			p.reset();
		else if (op == "look")
			;
		else
			harness_error(op);
		auto v = [&](T x) { auto y = lim(x); return y == 99999 || y == -99999 ? y : std::llround((long double)x * scale / mul); };
		r << v(p.min) << v(p.max);
	}
};
template<class A>
struct Sig : Obj {
	A s;
	DUP(s)
	template<class... X>
	Sig(X... x) : s{x...} {}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "update")
			s.update(a[0] / 256.f);
		else if (op == "reset_to")
			s.reset_to(a[0] / 256.f);
		else if (op == "look")
			;
		else
			harness_error(op);
		r << lim(s.min) << lim(s.max) << lim(s.avg);
	}
};
std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0]) {
		case 0:
			switch (c[1]) {
				case 0: return std::make_unique<Peak<float>>(1);
				case 1: return std::make_unique<Peak<int>>(1);
				case 2: return std::make_unique<Peak<unsigned>>(1);
				case 3: return std::make_unique<Peak<int8_t>>(1);
				case 4: return std::make_unique<Peak<double>>(16);
				case 5: return std::make_unique<Peak<uint16_t>>(1);
				case 6: return std::make_unique<Peak<float>>(1, 1LL << 40);
				case 7: return std::make_unique<Peak<long long>>(1, 1LL << 40);
			}
			break;
		case 1:
			switch (c[1]) {
				case 1: return std::make_unique<Sig<AnalyzedSignal<1>>>();
				case 2: return std::make_unique<Sig<AnalyzedSignal<2>>>();
				case 4: return std::make_unique<Sig<AnalyzedSig>>(.25f);
				case 5: return std::make_unique<Sig<AnalyzedSignal<5>>>();
				case 100: return std::make_unique<Sig<AnalyzedSignal<100>>>();
			}
			break;
	}
	return nullptr;
}
