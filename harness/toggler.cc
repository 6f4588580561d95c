#include "drv.hh"
#include "util/debouncer.hh"
#include "util/debouncer_compact.hh"

template<class T, int K>
struct O : Obj {
	T t[2];
	DUP(t[0], t[1])
	void op(const std::string &op, const Args &a, Out &r) override
	{
		int i = (int)a[0] - 1;
		T &x = t[i], &y = t[1 - i];
		if (op == "reg")
			x.register_state(a[1]);
		else if (op == "regs")
			for (int k = 0; k < a[2]; k++)
				x.register_state(a[1]);
		else if (op == "process")
			x.process(a[1]);
		else if (op == "just_pressed")
			r << x.is_just_pressed();
		else if (op == "went_high")
			r << x.just_went_high();
		else if (op == "just_released")
			r << x.is_just_released();
		else if (op == "went_low")
			r << x.just_went_low();
		else if (op == "clear")
			x.clear_events();
		else if (op == "assign")
			x = y;
		else if (op == "construct") {
			T tmp{y};
			x.~T();
			new (&x) T{tmp};
		} else if constexpr (K == 2) {
			if (op == "reset_count")
				x.reset_count();
			else
				harness_error(op);
		} else if (op == "reset")
			x.reset();
		else if (op == "rise")
			x.register_rising_edge();
		else if (op == "fall")
			x.register_falling_edge();
		else if (op == "set")
			x.set_state_no_events((unsigned)a[1]);
		else if (op == "copy")
			x.copy_state(y);
		else if (op == "update")
			x.update_state(y);
		else if (op == "transfer")
			x.transfer_events(y);
		else if constexpr (K == 0) {
			if (op == "set_old")
				x.set_state((unsigned)a[1]);
			else
				harness_error(op);
		} else
			harness_error(op);
		for (auto &z : t) {
			const volatile T &v = z;
			const T &c = z;
			r << c.is_high() << v.is_pressed() << (bool)c;
			if constexpr (K == 2)
				r << z.steady_state_count();
		}
	}
};

std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0]) {
		case 0: return std::make_unique<O<Toggler, 0>>();
		case 1: return std::make_unique<O<TogglerCompact, 1>>();
		case 2: return std::make_unique<O<TogglerCounter, 2>>();
	}
	return nullptr;
}
