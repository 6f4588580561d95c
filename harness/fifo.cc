#include "drv.hh"
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"

#include "elem.hh"

template<class F, bool Dyn>
struct O : Obj {
	std::unique_ptr<F> p;
	size_t base = 0;
	void op(const std::string &op, const Args &a, Out &r) override
	{
		F &f = *p;
		if (op == "put")
			r << f.put(mk(a[0]));
		else if (op == "puts") {
			long long n = 0;
			for (long long i = 0; i < a[1]; i++)
				n += f.put(mk(batch(a[0], i)));
			r << n;
		} else if (op == "gets") {
			std::vector<T> xs;
			for (long long i = 0; i < a[0]; i++)
				if (auto x = f.get())
					xs.push_back(*x);
			r << xs.size();
			for (auto &x : xs)
				r << val(x);
		} else if (op == "get") {
			auto x = f.get();
			r << x.has_value() << (x ? val(*x) : 0);
		} else if (op == "get_move") {
			T t{};
			bool ok = f.get_move(t);
			r << ok << (ok ? val(t) : 0);
		} else if (op == "get_or_default")
			r << val(f.get_or_default());
		else if (op == "remove_first")
			f.remove_first();
		else if (op == "reset")
			f.reset();
		else if (op == "set_read_pos")
			f.set_read_pos(base + (size_t)a[0]);
		else if (op == "set_write_pos")
			f.set_write_pos(base + (size_t)a[0]);
		else if (op == "set_read_offset")
			f.set_read_offset((size_t)a[0]);
		else if (op == "resize") {
			if constexpr (Dyn)
				f.resize((size_t)a[0]);
			else
				harness_error("resize");
		} else
			harness_error(op);
		r << f.num_filled() << f.num_free() << f.empty() << f.full() << f.max_size();
	}
};

// what the positions of a configuration are relative to
static const size_t bases[] = {0, size_t(1) << 8, size_t(1) << 16, size_t(1) << 31, size_t(1) << 32, size_t(1) << 63};

template<size_t N>
std::unique_ptr<Obj> fixed(const Args &c)
{
	using F = LockFreeFifoSpsc<T, N>;
	auto o = std::make_unique<O<F, false>>();
	o->base = bases[c[4]];
	if (c.size() > 5) {
		std::array<T, N> src;
		for (size_t i = 0; i < N; i++)
			src[i] = mk(c[5 + i]);
		o->p = std::make_unique<F>(std::span<T, N>{src});
		if (c[2] || c[3]) {
			o->p->set_write_pos((size_t)c[2]);
			o->p->set_read_pos((size_t)c[3]);
		}
	} else if (c[3] != 0 || o->base) {
		o->p = std::make_unique<F>();
		o->p->set_write_pos(o->base + (size_t)c[2]);
		o->p->set_read_pos(o->base + (size_t)c[3]);
	} else if (c[2] != 0)
		o->p = std::make_unique<F>((size_t)c[2]);
	else
		o->p = std::make_unique<F>();
	return o;
}

std::unique_ptr<Obj> make(const Args &c)
{
	if (c[0] == 1) {
		using F = LockFreeFifoSpscDyn<T>;
		auto o = std::make_unique<O<F, true>>();
		o->base = bases[c[4]];
		if (c[3] == 0 && c[2] != 0 && !o->base)
			o->p = std::make_unique<F>((size_t)c[1], (size_t)c[2]);
		else
			o->p = std::make_unique<F>((size_t)c[1]);
		if (c[3] != 0 || o->base) {
			o->p->set_write_pos(o->base + (size_t)c[2]);
			o->p->set_read_pos(o->base + (size_t)c[3]);
		}
		return o;
	}
	switch (c[1]) {
		case 1: return fixed<1>(c);
		case 2: return fixed<2>(c);
		case 4: return fixed<4>(c);
		case 8: return fixed<8>(c);
		case 16: return fixed<16>(c);
		case 512: return fixed<512>(c);
		case 131072: return fixed<131072>(c);
	}
	return nullptr;
}
