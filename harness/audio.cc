#include "drv.hh"
#include "util/audio_frame.hh"

template<class T, int Bits, int N>
struct O : Obj {
	using F = AudioFrame<T, Bits, N>;
	std::unique_ptr<F> f{new F{}};
	void limbs(Out &r, long long v)
	{
		r << (v >> 16) << (v & 0xffff);
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "out") { // channel, mantissa, exponent
			f->set_scaled_output(a[0], std::ldexp((float)a[1], a[2]));
			for (auto c : f->chan)
				limbs(r, (long long)c);
		} else if (op == "raw") // channel, high, low half
			f->chan[a[0]] = (T)((a[1] << 16) | a[2]);
		else if (op == "in") {
			limbs(r, std::llround(std::ldexp((double)f->scale_input_chan(a[0]), Bits - 1)));
			limbs(r, (long long)f->sign_extend_chan(a[0]));
		} else if (op == "loop") { // and back out again
			f->set_scaled_output(a[1], f->scale_input_chan(a[0]));
			for (auto c : f->chan)
				limbs(r, (long long)c);
		} else
			harness_error(op);
	}
};
std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0] * 1000 + c[1] * 10 + c[2]) {
		case 32242: return std::make_unique<O<int32_t, 24, 2>>();
		case 32244: return std::make_unique<O<int32_t, 24, 4>>();
		case 16162: return std::make_unique<O<int16_t, 16, 2>>();
		case 32322: return std::make_unique<O<int32_t, 32, 2>>();
		case 32162: return std::make_unique<O<int32_t, 16, 2>>();
		case 32202: return std::make_unique<O<int32_t, 20, 2>>();
		case 32302: return std::make_unique<O<int32_t, 30, 2>>();
		case 16121: return std::make_unique<O<int16_t, 12, 1>>();
		case 8083: return std::make_unique<O<int8_t, 8, 3>>();
		case -16000 + 162: return std::make_unique<O<uint16_t, 16, 2>>();
		case -8000 + 82: return std::make_unique<O<uint8_t, 8, 2>>();
		case -16000 + 122: return std::make_unique<O<uint16_t, 12, 2>>();
		case -32000 + 322: return std::make_unique<O<uint32_t, 32, 2>>();
	}
	return nullptr;
}
