#include "drv.hh"
#include <utility>
#include "util/calibrator.hh"

struct O : Obj {
	Calibrator c;
	DUP(c)
	static long long q(double x) { return std::llround(x * 64); }
	void op(const std::string &op, const Args &a, Out &r) override
	{
		auto p = [&](int i) { return std::pair<float, float>(a[i] / 4.f, a[i + 1] / 4.f); };
		if (op == "make")
			c = Calibrator{p(0), p(2)};
		else if (op == "cal2")
			c.calibrate_chan(p(0), p(2));
		else if (op == "cal")
			c.calibrate_chan(a[0] / 4.f, a[1] / 4.f, a[2] / 4.f, a[3] / 4.f);
		else if (op == "set")
			c.set_slope_offset(a[0] / 16.f, a[1] / 4.f);
		else if (op == "lit")
			c = Calibrator{a[0] / 16.f, a[1] / 4.f};
		else if (op == "adjust")
			r << q(c.adjust(a[0] / 4.f));
		else if (op == "reverse")
			r << q(c.reverse_calibrate(a[0] / 4.f));
		else if (op == "there")
			r << q(c.adjust(c.reverse_calibrate(a[0] / 4.f))) << q(c.reverse_calibrate(c.adjust(a[0] / 4.f)));
		else if (op == "show")
			r << q(c.slope()) << q(c.offset());
		else
			harness_error(op);
	}
};
std::unique_ptr<Obj> make(const Args &) { return std::make_unique<O>(); }
