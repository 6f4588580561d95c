#include "drv.hh"
#include "util/debouncer.hh"

template<class D, bool Cnt>
struct O : Obj {
	D d;
	DUP(d)
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "reg")
			d.register_state((unsigned)a[0]);
		else if (op == "regs")
			for (int k = 0; k < a[1]; k++)
				d.register_state((unsigned)a[0]);
		else if (op == "just_pressed")
			r << d.is_just_pressed();
		else if (op == "just_released")
			r << d.is_just_released();
		else
			harness_error(op);
		const D &c = d;
		r << c.is_high() << c.is_pressed();
		if constexpr (Cnt)
			r << c.steady_state_ctr;
	}
};

std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0]) {
		case 1: return std::make_unique<O<Debouncer<1, 0xFFFFFFFE, 0xF>, false>>();
		case 2: return std::make_unique<O<Debouncer<1, 0xFFFFFFFE, 0xF, true>, false>>();
		case 3: return std::make_unique<O<Debouncer<3, 4, 7, true>, false>>();
		case 4: return std::make_unique<O<Debouncer<1, 8, 9>, false>>();
		case 5: return std::make_unique<O<DebouncerCounter<1, 6, 7>, true>>();
		case 6: return std::make_unique<O<DebouncerCounter<3, 4, 7, true>, true>>();
		case 7: return std::make_unique<O<Debouncer<0b000111, 0b111000, 0b110011, true>, false>>();
		case 8: return std::make_unique<O<Debouncer<>, false>>();
		case 9: return std::make_unique<O<DebouncerCounter<>, true>>();
		case 10: return std::make_unique<O<Debouncer<0b00000111, 0b11111000, 0b11000111, true>, false>>();
		case 12: return std::make_unique<O<DebouncerCounter<0x80000001, 0x7FFFFFFE, 0xFFFFFFFF, true>, true>>();
		case 13: return std::make_unique<O<Debouncer<1, 0xFFFFFFFE, 0xFFF, true>, false>>();
		case 14: return std::make_unique<O<DebouncerCounter<0x00FF0001, 0x00FF0000, 0x00FFFF01>, true>>();
		case 11: return std::make_unique<O<Debouncer<0x80000001, 0x7FFFFFFE, 0xFFFFFFFF, true>, false>>();
	}
	return nullptr;
}
