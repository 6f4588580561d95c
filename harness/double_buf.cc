#include "drv.hh"
#include "util/doublebuf_stream.hh"

template<size_t N>
struct O : Obj {
	using S = DoubleBufferStream<int, N>;
	int mode = 0;
	bool flying = false;
	std::span<int> fly;
	std::vector<long long> *log = nullptr;
	S s{[this](std::span<int> d) { return this->xmit(d); }};

	bool xmit(std::span<int> d)
	{
		log->push_back(d.size());
		for (auto x : d)
			log->push_back(x);
		if (mode == 0)
			return false;
		if (flying)
			log->push_back(-7777); // overlapping transmissions
		flying = true;
		fly = d;
		return true;
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		log = &r.v;
		mode = a[0];
		if (op == "transmit") {
			std::vector<int> w(a.begin() + 1, a.end());
			std::vector<int> w0 = w;
			r.v.push_back(-1);
			r.v[0] = s.transmit(w);
			if (w != w0)
				r << -7778;
			std::fill(w.begin(), w.end(), -5); // the caller's buffer may be reused at once
		} else if (op == "huge") {
			static std::vector<int> w(70000);
			w.assign(70000, 7);
			r.v.push_back(-1);
			r.v[0] = s.transmit({w.data(), HUGE_SIZE(a[1])});
		} else if (op == "done") {
			if (flying) {
				r << fly.size();
				for (auto x : fly)
					r << x;
				flying = false;
			} else
				r << 0;
			s.tx_done_callback();
		} else
			harness_error(op);
	}
};

std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0]) {
#define CASE(n) \
	case n: return std::make_unique<O<n>>();
		CASE(300)
		CASE(1)
		CASE(2) CASE(3) CASE(4) CASE(7) CASE(16)
	}
	return nullptr;
}
