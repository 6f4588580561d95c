#include "drv.hh"
#include "util/oscs.hh"

// 32-bit values go in as two halves; phases come out as their 15 leading bits
static long long top(uint32_t x) { return x >> 17; }
static uint32_t two(const Args &a) { return ((uint32_t)a[0] << 16) | (uint32_t)a[1]; }
static long long f15(double x)
{
	if (!(x >= 0 && x <= 1))
		return -1;
	return std::min(32767ll, (long long)std::floor(x * 32768));
}
template<class T, class A>
std::unique_ptr<T> mk(A freq)
{
	return freq < 0 ? std::make_unique<T>() : std::make_unique<T>((uint32_t)freq);
}

template<int R>
struct Tri : Obj {
	std::unique_ptr<TriangleOscillator<R>> t;
	DUP(t)
	Tri(long long f) : t{mk<TriangleOscillator<R>>(f)} {}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "freq")
			t->set_frequency((uint32_t)a[0]);
		else if (op == "ifreq")
			t->set_frequency((int)a[0]);
		else if (op == "ffreq")
			t->set_frequency(a[0] / 4.f);
		else if (op == "ms")
			t->set_period_ms((uint32_t)a[0]);
		else if (op == "sec")
			t->set_period_sec((uint32_t)a[0]);
		else if (op == "phase")
			t->set_phase(two(a));
		else if (op == "val")
			r << top(t->val());
		else if (op == "update") {
			t->update();
			r << top(t->val());
		} else if (op == "process")
			r << top(t->process());
		else if (op == "float")
			r << f15(t->process_float());
		else if (op == "skip")
			for (int i = 0; i < a[0]; i++)
				t->update();
		else
			harness_error(op);
	}
};
template<int R>
struct Ramp : Obj {
	std::unique_ptr<PhaseAccum<R>> t;
	DUP(t)
	Ramp(long long f) : t{mk<PhaseAccum<R>>(f)} {}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "freq")
			t->set_frequency((uint32_t)a[0]);
		else if (op == "phase")
			t->set_phase(two(a));
		else if (op == "val")
			r << top(t->val());
		else if (op == "update") {
			t->update();
			r << top(t->val());
		} else if (op == "process")
			r << top(t->process());
		else if (op == "process2")
			r << top(t->Process());
		else if (op == "float")
			r << f15(t->process_float());
		else if (op == "skip")
			for (int i = 0; i < a[0]; i++)
				t->update();
		else
			harness_error(op);
	}
};
// a sine is judged by its ramp: values in 1/10000
template<int R>
struct Sine : Obj {
	std::unique_ptr<SineOscillator<R>> t;
	DUP(t)
	Sine(long long f) : t{mk<SineOscillator<R>>(f)} {}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "freq")
			t->set_frequency((uint32_t)a[0]);
		else if (op == "phase")
			t->set_phase(two(a));
		else if (op == "bipolar")
			r << std::llround(t->process_bipolar() * 10000.);
		else if (op == "unipolar")
			r << std::llround(t->process_unipolar() * 20000. - 10000.);
		else if (op == "val" || op == "process")
			r << std::llround(((op == "val" ? t->val() : t->process()) / 4294967296. * 2 - 1) * 10000);
		else if (op == "skip")
			for (int i = 0; i < a[0]; i++)
				t->update();
		else
			harness_error(op);
	}
};
template<int R>
struct Down : Obj {
	DownCounter<R> t;
	DUP(t)
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "freq")
			t.set_frequency((uint32_t)a[0]);
		else if (op == "ms")
			t.set_period_ms((uint32_t)a[0]);
		else if (op == "phase")
			t.set_phase(two(a));
		else if (op == "reset")
			t.reset();
		else if (op == "update" || op == "val") {
			if (op == "update")
				t.update();
			r << top(t.val()) << (t.val() != 0);
		} else
			harness_error(op);
	}
};
struct Shot : Obj {
	OneShot t;
	DUP(t)
	Shot(long long hz) : t{hz < 0 ? OneShot{} : OneShot{(float)hz}} {}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "start") // in updates / 4 at a[1] / 4 Hz
			t.start(a[0] / 4.f / (a[1] / 4.f));
		else if (op == "rate")
			t.set_update_rate_hz(a[0] / 4.f);
		else if (op == "stop")
			t.stop();
		else if (op == "update")
			r << t.update();
		else
			harness_error(op);
	}
};
template<int R>
std::unique_ptr<Obj> by(const Args &c)
{
	switch (c[0]) {
		case 0: return std::make_unique<Tri<R>>(c[2]);
		case 1: return std::make_unique<Ramp<R>>(c[2]);
		case 2: return std::make_unique<Sine<R>>(c[2]);
		case 3: return std::make_unique<Down<R>>();
	}
	return nullptr;
}
std::unique_ptr<Obj> make(const Args &c)
{
	if (c[0] == 4)
		return std::make_unique<Shot>(c[1]);
	switch (c[1]) {
		case 8: return by<8>(c);
		case 10: return by<10>(c);
		case 1000: return by<1000>(c);
		case 48000: return by<48000>(c);
		case 60: return by<60>(c);
		case 1000000: return by<1000000>(c);
	}
	return nullptr;
}
