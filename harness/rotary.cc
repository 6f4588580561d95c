#include "drv.hh"
#include "util/rotary_motion.hh"

struct O : Obj {
	RotaryMotion m[2];
	DUP(m[0], m[1])
	void op(const std::string &op, const Args &a, Out &r) override
	{
		auto &x = m[a[0] - 1], &y = m[2 - a[0]];
		if (op == "use")
			r << x.use_motion();
		else if (op == "add")
			x.add_motion(y);
		else if (op == "transfer")
			x.transfer_motion(y);
		else if (op == "self")
			x.transfer_motion(x);
		else if (op == "double")
			x.add_motion(x);
		else if (op == "copy")
			x = y;
		else if (op == "step") {
			x.motion += a[1];
			x.abs_pos += a[1];
		} else
			harness_error(op);
		r << m[0].abs_pos << m[0].motion << m[1].abs_pos << m[1].motion;
	}
};

std::unique_ptr<Obj> make(const Args &) { return std::make_unique<O>(); }
