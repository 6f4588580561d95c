#include "drv.hh"
#include "util/rgbled.hh"

template<int Channel>
struct Pin {
	int *to = nullptr;
	void set(uint8_t v) const { to[Channel] = v; }
};
struct Same {
	int *to = nullptr;
	void set(uint8_t v) const { *to = v; }
};
template<class L>
struct O : Obj {
	int out[3] = {-1, -1, -1};
	L led;
	DUP(led)
	template<class... X>
	O(X... x) : led{x...} {}
	O()
		: led{[&] {
			if constexpr (std::is_constructible_v<L, Same, Same, Same>)
				return L{Same{&out[0]}, Same{&out[1]}, Same{&out[2]}};
			else
				return L{Pin<0>{out}, Pin<1>{out}, Pin<2>{out}};
		}()}
	{
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		auto c = [&] { return Color((uint8_t)a[0], (uint8_t)a[1], (uint8_t)a[2]); };
		auto show = [&] {
			r << out[0] << out[1] << out[2];
			out[0] = out[1] = out[2] = -1;
		};
		if (op == "base")
			led.set_base_color(c());
		else if (op == "blend")
			led.blend_base_color(c());
		else if (op == "add")
			led.add_base_color(c());
		else if (op == "flash")
			led.flash_once_ms(c(), (float)a[3]);
		else if (op == "fade")
			led.fade_once_ms(c(), (float)a[3]);
		else if (op == "breathe")
			led.breathe(c(), a[3] / 4.f);
		else if (op == "still")
			led.reset_breathe();
		else if (op == "cal")
			led.set_color_calibration({(uint8_t)a[0], (uint8_t)a[1], (uint8_t)a[2]});
		else if (op == "update") {
			led.update_animation();
			show();
		} else if (op == "skip") // the animation runs on without being shown
			for (int i = 0; i < a[0]; i++)
				led.update_oscillators();
		else if (op == "set") {
			led.set_color(c());
			show();
		} else if (op == "set8") {
			led.set_color(c(), (uint8_t)a[3]);
			show();
		} else if (op == "setf") {
			led.set_color(c(), a[3] / 64.f);
			show();
		} else
			harness_error(op);
	}
};
std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0]) {
		case 1000: return std::make_unique<O<MixedRgbLed<Pin<0>, Pin<1>, Pin<2>>>>();
		case 100: return std::make_unique<O<MixedRgbLed<Pin<0>, Pin<1>, Pin<2>, 100>>>();
		case 48: return std::make_unique<O<RgbLed<Same, 48>>>();
		case 60: return std::make_unique<O<RgbLed<Same, 60>>>();
		case 7: return std::make_unique<O<RgbLed<Same, 7>>>();
	}
	return nullptr;
}
