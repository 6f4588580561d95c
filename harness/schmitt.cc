#include "drv.hh"
#include "util/math.hh"
#include "util/schmitt_trigger.hh"
#include <optional>

struct O : Obj {
	int kind;
	float den, lo, hi, last = 0.f;
	std::optional<cpputil::SchmittTrigger> s;
	std::optional<cpputil::RisingSchmittTrigger> rs;
	DUP(s, rs)
	O(const Args &c)
		: kind((int)c[0]), den(c[1] ? (float)c[1] : 160.f), lo(c[2] / den), hi(c[3] / den)
	{
		if (c[1]) {
			s.emplace(lo, hi);
			rs.emplace(lo, hi);
		} else {
			s.emplace();
			rs.emplace();
		}
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "in" || op == "near") {
			float x;
			if (op == "in")
				x = a[0] / den;
			else {
				float th = a[0] ? hi : lo;
				x = a[1] ? std::nextafterf(th, a[1] * INFINITY) : th;
			}
			if (kind == 0)
				s->process(x);
			else if (kind == 1)
				r << rs->update(x);
			else {
				last = kind == 2 ? MathTools::hysteresis_gate(lo, hi, last, x) : MathTools::hysteresis_feedback(hi - lo, hi, last, x);
				if (last != 0.f && last != 1.f)
					r << -1;
				r << last;
			}
		} else if (op == "just_pressed")
			r << s->is_just_pressed();
		else if (op == "just_released")
			r << s->is_just_released();
		else if (op == "last")
			last = (float)a[0];
		else
			harness_error(op);
		if (kind == 0)
			r << s->is_high() << s->is_pressed();
	}
};

std::unique_ptr<Obj> make(const Args &c) { return std::make_unique<O>(c); }
