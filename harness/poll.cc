#include "drv.hh"
#include "util/poll_change.hh"
#include "util/poll_event.hh"

template<class TimeT>
struct Ev : Obj {
	PollEvent<TimeT> p;
	DUP(p)
	unsigned long long now;
	Ev(const Args &c)
		: p((TimeT)c[4])
	{
		if constexpr (!std::is_integral_v<TimeT>) {
			now = (unsigned long long)0 - (unsigned long long)c[3];
			return;
		} else {
		using U = std::make_unsigned_t<TimeT>;
		// the wide signed counters start just below their largest value
		now = (U)(std::is_signed_v<TimeT> ? (U)std::numeric_limits<TimeT>::max() - (U)c[3] + 1 : (U)0 - (U)c[3]);
		}
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		now += (unsigned long long)a[0];
		TimeT t = std::is_integral_v<TimeT> ? (TimeT)now : (TimeT)(long long)now;
		int n = 0;
		if (op != "poll")
			harness_error(op);
		p.poll(t, [&] { n++; });
		r << n;
	}
};

struct Ch : Obj {
	PollChange p;
	DUP(p)
	unsigned now;
	Ch(const Args &c)
		: p((unsigned)c[4]), now(0u - (unsigned)c[3])
	{}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "sample") {
			now += (unsigned)a[0];
			p.poll(now, (bool)a[1]);
		} else if (op == "sample_fn") {
			now += (unsigned)a[0];
			int n = 0;
			p.poll(now, [&] {
				n++;
				return (bool)a[1];
			});
			r << n;
		} else if (op == "take")
			r << p.take_change();
		else if (op == "force")
			p.force_next_poll();
		else if (op == "reset")
			p.reset();
		else
			harness_error(op);
	}
};

std::unique_ptr<Obj> make(const Args &c)
{
	if (c[0] == 1)
		return std::make_unique<Ch>(c);
	switch (c[1]) {
		case 0: return std::make_unique<Ev<uint8_t>>(c);
		case 1: return std::make_unique<Ev<uint16_t>>(c);
		case 2: return std::make_unique<Ev<uint32_t>>(c);
		case 3: return std::make_unique<Ev<uint64_t>>(c);
		case 4: return std::make_unique<Ev<long int>>(c);
		case 6: return std::make_unique<Ev<float>>(c);
		case 7: return std::make_unique<Ev<double>>(c);
		case 5: return std::make_unique<Ev<int32_t>>(c);
	}
	return nullptr;
}
