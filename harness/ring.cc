#include "drv.hh"
#include "util/circular_buffer.hh"
#include "util/circular_buffer_opt.hh"
#include "elem.hh"

template<class B, size_t N, bool Opt>
struct O : Obj {
	std::unique_ptr<B> p = std::make_unique<B>();
	DUP(p)
	void op(const std::string &op, const Args &a, Out &r) override
	{
		B &f = *p;
		if (op == "puts") {
			for (long long i = 0; i < a[1]; i++)
				f.put(mk(batch(a[0], i)));
		} else if (op == "put")
			f.put(mk(a[0]));
		else if (op == "get") {
			if constexpr (Opt) {
				auto x = f.get();
				r << x.has_value() << (x ? val(*x) : 0);
			} else
				r << val(f.get());
		} else if (op == "gets") {
			for (long long i = 0; i < a[0] && !f.empty(); i++) {
				if constexpr (Opt) {
					auto x = f.get();
					r << (x ? val(*x) : -7777);
				} else
					r << val(f.get());
			}
		} else if (op == "first") {
			if constexpr (!Opt)
				if (!f.empty())
					r << val(f.first()) << (&f.first() == &std::as_const(f).first());
		} else if (op == "remove_first")
			f.remove_first();
		else if (op == "reset")
			f.reset();
		else if (op == "set_head")
			f.set_head((size_t)a[0]);
		else if (op == "fill_val")
			f.fill_buffer(mk(a[0]));
		else if (op == "fill_arr") {
			std::array<T, N> src;
			for (size_t i = 0; i < N; i++)
				src[i] = mk(a[i]);
			if constexpr (std::is_trivially_copyable_v<T>)
				f.fill_buffer(src);
			else
				harness_error(op);
		} else
			harness_error(op);
		const B &c = f;
		r << c.count() << c.num_filled() << c.empty() << c.full() << c.max_size() << c.max_capacity() << c.get_head_idx()
		  << c.get_tail_idx();
		if constexpr (!Opt)
			for (size_t i = 0; i < c.count() && i < N; i++)
				if (N <= 1000 || i < 2 || i == 65535 || i == 65536 || i + 2 >= c.count())
					r << val(c.peek(i));
	}
};

template<size_t N>
std::unique_ptr<Obj> mkobj(int kind)
{
	if (kind)
		return std::make_unique<O<CircularBufferOpt<T, N>, N, true>>();
	return std::make_unique<O<CircularBuffer<T, N>, N, false>>();
}

std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[1]) {
		case 1: return mkobj<1>(c[0]);
		case 2: return mkobj<2>(c[0]);
		case 4: return mkobj<4>(c[0]);
		case 8: return mkobj<8>(c[0]);
		case 16: return mkobj<16>(c[0]);
		case 131072: return mkobj<131072>(c[0]);
		case 512: return mkobj<512>(c[0]);
	}
	return nullptr;
}
