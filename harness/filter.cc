#include "drv.hh"
#include "util/filter.hh"

template<class F, class T, int Scale = 1, int In = 1, int Mul = 1>
struct O : Obj {
	F f;
	DUP(f)
	std::unique_ptr<F> keep;
	O() : f{} {}
	O(unsigned n)
		: f(n)
	{}
	static long long out(auto v) { return std::is_floating_point_v<decltype(v)> ? llround((double)v * Scale / Mul) : (long long)v; }
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "add")
			r << out(f.add_val((T)a[0] * (T)Mul / (T)In));
		else if (op == "look")
			;
		else if (op == "adds") { // a[1] times the same sample
			for (long long i = 0; i < a[1]; i++)
				f.add_val((T)a[0]);
		}
		else if constexpr (requires { f.set_size(1); }) {
			if (op == "set_size")
				f.set_size(a[0]);
			else if (op == "reset")
				f.reset();
			else if (op == "save")
				keep = std::make_unique<F>(f);
			else if (op == "load")
				f = keep ? *keep : F{};
			else
				harness_error(op);
		} else
			harness_error(op);
		r << out(f.val());
	}
};
struct Casc : Obj {
	CascadingFilter<unsigned, Oversampler<4>, MovingAverage<2>> f;
	DUP(f)
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "add")
			r << f.add_val((unsigned)a[0]);
		else
			r << f.val();
	}
};

template<class T>
std::unique_ptr<Obj> sized(const Args &c)
{
	switch (c[1] > 1000 ? c[0] * 1000000 + c[1] : c[0] * 1000 + c[1]) {
		case 1: return std::make_unique<O<MovingAverage<1, T>, T>>();
		case 4: return std::make_unique<O<MovingAverage<4, T>, T>>();
		case 8: return std::make_unique<O<MovingAverage<8, T>, T>>();
		case 64: return std::make_unique<O<MovingAverage<64, T>, T>>();
		case 1001: return std::make_unique<O<Oversampler<1, T>, T>>();
		case 1004: return std::make_unique<O<Oversampler<4, T>, T>>();
		case 1008: return std::make_unique<O<Oversampler<8, T>, T>>();
		case 1064: return std::make_unique<O<Oversampler<64, T>, T>>();
		case 2001: return std::make_unique<O<SmoothOversampler<1, T>, T, 840>>();
		case 2003: return std::make_unique<O<SmoothOversampler<3, T>, T, 840>>();
		case 2006: return std::make_unique<O<SmoothOversampler<6, T>, T, 840>>();
		case 131072: return std::make_unique<O<MovingAverage<131072, T>, T>>();
		case 1000000 + 131072: return std::make_unique<O<Oversampler<131072, T>, T>>();
		case 2000000 + 70000: return std::make_unique<O<SmoothOversampler<70000, T>, T, 840>>();
		case 512: return std::make_unique<O<MovingAverage<512, T>, T>>();
		case 1512: return std::make_unique<O<Oversampler<512, T>, T>>();
		case 2280: return std::make_unique<O<SmoothOversampler<280, T>, T, 840>>();
		case 5001: return std::make_unique<O<NoFilter<T>, T>>();
	}
	return nullptr;
}
std::unique_ptr<Obj> make(const Args &c)
{
	if (c[0] == 3 && c[2] == 4) // samples in quarters
		return std::make_unique<O<ResizingOversampler, float, 3360, 4>>((unsigned)c[1]);
	if (c[0] == 7 && c[2] == 256) // values in this part of 1
		return std::make_unique<O<QuadraticOnePoleLp<1>, float, 256, 256>>();
	if (c[0] == 7 && c[2] == 1024)
		return std::make_unique<O<QuadraticOnePoleLp<4>, float, 1024, 1024>>();
	if (c[0] == 3)
		return std::make_unique<O<ResizingOversampler, float, 840>>((unsigned)c[1]);
	if (c[0] == 4)
		return std::make_unique<Casc>();
	if (c[0] == 6 && c[1])
		return std::make_unique<O<NonLinearOnePoleLp<float, TransferHysteresis<1, 4>>, float, 16, 16>>((unsigned)c[1] / 16);
	if (c[0] == 6)
		return std::make_unique<O<HysteresisFilter<1, 4>, float, 16, 16>>();
	if (c[0] == 7) { // values in units of 1/div, so that the steps are whole again
		switch (c[1]) {
			case 2: return std::make_unique<O<QuadraticOnePoleLp<2>, float, 1, 1, 2>>();
			case 4: return std::make_unique<O<QuadraticOnePoleLp<4>, float, 1, 1, 4>>();
			case 64: return std::make_unique<O<QuadraticOnePoleLp<64>, float, 1, 1, 64>>();
		}
		return std::make_unique<O<QuadraticOnePoleLp<1>, float>>();
	}
	if (c[2] == 2) {
		if (c[0] == 0)
			return std::make_unique<O<MovingAverage<64, unsigned, 24>, unsigned>>();
		if (c[0] == 1)
			return std::make_unique<O<Oversampler<64, unsigned, 24>, unsigned>>();
	}
	if (c[2] == 3)
		return std::make_unique<O<MovingAverage<8, uint8_t, 8>, uint8_t>>();
	return c[2] ? sized<uint16_t>(c) : sized<unsigned>(c);
}
