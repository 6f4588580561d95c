#include "drv.hh"
#include "util/voct_calibrator.hh"

template<class T>
struct Voct : Obj {
	long long k, d;
	Voct(long long k, long long d) : k{k * d}, d{d} {}
	VoctCalibrator<T> c;
	DUP(c)
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "rec")
			c.record_measurement((typename VoctCalibrator<T>::Note)a[0], (T)a[1] / (T)d);
		else if (op == "reset")
			c.reset();
		else
			harness_error(op);
		r << std::llround((long double)c.slope() * k) << std::llround((long double)c.offset() * k);
	}
};
std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0]) {
		case 0: return std::make_unique<Voct<int>>(1, 1);
		case 1: return std::make_unique<Voct<float>>(5040, 16);
		case 2: return std::make_unique<Voct<double>>(5040, 16);
	}
	return nullptr;
}
