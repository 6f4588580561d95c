#include "drv.hh"
#include "util/colors.hh"
#include "util/colors_rgb565.hh"
#include "util/hsv.hh"

struct O : Obj {
	void op(const std::string &op, const Args &a, Out &r) override
	{
		auto col = [&](int i) { return Color((uint8_t)a[i], (uint8_t)a[i + 1], (uint8_t)a[i + 2]); };
		auto out = [&](Color c) { r << c.red() << c.green() << c.blue(); };
		auto out565 = [&](RGB565 c) { r << c.raw() << (uint16_t)c << c.red() << c.green() << c.blue(); };
		if (op == "add")
			out(col(0) + col(3));
		else if (op == "combine")
			out(col(0).combine(col(3)));
		else if (op == "half")
			out(col(0).blend(col(3)));
		else if (op == "blend8")
			out(col(0).blend(col(3), (uint8_t)a[6]));
		else if (op == "blend32")
			out(col(0).blend(col(3), ((uint32_t)a[6] << 16) | (uint32_t)a[7]));
		else if (op == "blendf")
			out(col(0).blend(col(3), a[6] / 64.f));
		else if (op == "times")
			out(col(0) * (a[3] / 64.f));
		else if (op == "adjust")
			out(col(0).adjust({(uint8_t)a[3], (uint8_t)a[4], (uint8_t)a[5]}));
		else if (op == "eq") {
			auto x = col(0);
			r << (x == col(3)) << (x != col(3));
		} else if (op == "from565")
			out(Color((uint16_t)a[0]));
		else if (op == "to565")
			r << col(0).Rgb565();
		else if (op == "slow565")
			r << Color::slow_blend((uint16_t)a[0], (uint16_t)a[1], a[2] / 64.f);
		else if (op == "blend565f")
			r << Color::blend((uint16_t)a[0], (uint16_t)a[1], a[2] / 64.f);
		else if (op == "blend565")
			r << Color::blend((uint16_t)a[0], (uint16_t)a[1], (uint8_t)a[2]);
		else if (op == "s565")
			out565(RGB565((uint8_t)a[0], (uint8_t)a[1], (uint8_t)a[2]));
		else if (op == "f565")
			out565(RGB565(a[0] / 64.f, a[1] / 64.f, a[2] / 64.f));
		else if (op == "u565")
			out565(RGB565((uint32_t)(a[0] << 16 | a[1] << 8 | a[2])));
		else if (op == "raw565") {
			RGB565 c;
			if (c.raw() != 0)
				r << -1;
			c = (uint16_t)a[0];
			out565(c);
		} else if (op == "hsv") {
			HSVColor h{(uint8_t)a[0], (uint8_t)a[1], (uint8_t)a[2]};
			out(h);
		} else if (op == "named") {
			const Color c[] = {Colors::off, Colors::black, Colors::white, Colors::red, Colors::green, Colors::blue, Colors::yellow, Colors::cyan};
			out(c[a[0]]);
		} else
			harness_error(op);
	}
};
std::unique_ptr<Obj> make(const Args &) { return std::make_unique<O>(); }
