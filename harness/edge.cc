#include "drv.hh"
#include "util/change_detector.hh"
#include "util/edge_detector.hh"

struct O : Obj {
	int kind;
	EdgeStateDetector e;
	RisingEdgeDetector ri;
	FallingEdgeDetector fa;
	ChangeDetector ch;
	DUP(e, ri, fa, ch)
	O(int k)
		: kind(k)
	{}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "update") {
			if (kind == 0)
				e.update(a[0]);
			else if (kind == 1)
				r << ri.update(a[0]);
			else if (kind == 2)
				r << fa.update(a[0]);
			else
				ch.update(a[0]);
		} else if (op == "changed")
			r << ch.changed();
		else if (op == "reset")
			e.reset();
		else if (op == "obs")
			;
		else
			harness_error(op);
		if (kind == 0) {
			const auto &c = e;
			r << c.changed() << c.went_high() << c.went_low() << c.is_high() << c.staying_high() << c.staying_low();
		}
	}
};

std::unique_ptr<Obj> make(const Args &c) { return std::make_unique<O>((int)c[0]); }
