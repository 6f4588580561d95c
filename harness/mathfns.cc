#include "drv.hh"
#include "util/math.hh"
namespace M = MathTools;

static long long fix(double x, double scale)
{
	return std::isfinite(x) && std::abs(x * scale) < 2e9 ? std::llround(x * scale) : 2000000001;
}
// as exponent and 14 binary digits
static void split(Out &r, double x)
{
	int e = 0;
	if (!std::isfinite(x) || x == 0) {
		r << 9999 << 0;
		return;
	}
	double m = std::frexp(x, &e); // 0.5..1
	r << e - 1 << fix(m, 32768);
}
struct Fns : Obj {
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "entry") {
			auto i = a[1];
			switch (a[0]) {
				case 0: r << fix(sinTable[i], 16384); break;
				case 1: r << fix(tanTable[i], 1024); break;
				case 2: split(r, exp5Table[i]); break;
				case 3: split(r, exp10Table[i]); break;
				case 4: r << fix(pow9Table[i], 16384); break;
				case 5: r << fix(logTable[i], 10000); break;
			}
		} else if (op == "sin") { // which, 1/64 of a cycle
			float cyc = a[1] / 64.f, rad = (float)(cyc * 2 * 3.14159265358979);
			switch (a[0]) {
				case 0: r << fix(M::sin(rad), 16384); break;
				case 1: r << fix(M::sin01(cyc), 16384); break;
				case 2: r << fix(M::cos(rad), 16384); break;
				case 3: r << fix(M::cos_close(rad), 16384); break;
				case 4: r << fix(M::cos(rad) * M::cos(rad) + M::sin(rad) * M::sin(rad), 16384); break;
				case 5: r << fix(M::faster_sine(cyc), 16384); break;
			}
		} else if (op == "tan") {
			float rad = (float)(a[1] / 64. * 3.14159265358979);
			r << fix(a[0] ? M::tan_close(rad) : M::tan(rad), 1024);
		} else if (op == "exp") {
			split(r, a[0] ? M::setPitchMultiple(a[1] / 1024.f) : M::pow2(a[1] / 1024.f));
		} else if (op == "far") {
			switch (a[0]) {
				case 0: r << (M::pow2(1e30f) > 1e38f); break;
				case 1: r << (M::pow2(-1e30f) == 0.f); break;
				case 2: r << (M::pow2(1000.f) > 1e38f); break;
				case 3: r << (M::pow2(-1000.f) == 0.f); break;
			}
		} else if (op == "freq")
			r << fix(M::audioFreqToNorm((float)a[0]), 10000);
		else
			harness_error(op);
	}
};
std::unique_ptr<Obj> make(const Args &)
{
	return std::make_unique<Fns>();
}
