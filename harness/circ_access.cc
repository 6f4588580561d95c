#include "drv.hh"
#include "util/circular_buffer_ext.hh"

#if ELEM == 1
using V = int16_t;
#elif ELEM == 2
using V = float;
#else
using V = int32_t;
#endif

template<class B>
struct O : Obj {
	B buf;
	std::unique_ptr<CircularBufferAccess<B>> p;
	DUP(p)
	template<class X>
	O(X &&x, size_t off)
		: buf(std::forward<X>(x))
	{
		if (off)
			p = std::make_unique<CircularBufferAccess<B>>(buf, off);
		else
			p = std::make_unique<CircularBufferAccess<B>>(buf);
	}
	static float phase(int q) { return q >= 100 ? (q - 100) / 256.f : q / 4.f; }
	static std::vector<V> vals(const Args &a)
	{
		std::vector<V> v;
		for (size_t i = 1; i < a.size(); i++)
			v.push_back((V)a[i]);
		return v;
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		auto &f = *p;
		std::vector<V> out;
		if (op.starts_with("read"))
			out.resize(a[0]);
		if (op == "read")
			r << f.read(out);
		else if (op == "read_rev")
			r << f.read_reverse(out);
		else if (op == "read_chk")
			r << f.read_check_crossed(out, (size_t)a[1]);
		else if (op == "read_rev_chk")
			r << f.read_reverse_check_crossed(out, (size_t)a[1]);
		else if (op == "write")
			r << (a[0] == 4 ? f.write(vals(a)) : f.write(vals(a), phase(a[0])));
		else if (op == "write_rev")
			r << (a[0] == 4 ? f.write_reverse(vals(a), 1.f) : f.write_reverse(vals(a), phase(a[0])));
		else if (op == "write_chk")
			r << f.write_check_crossed(vals(a), (size_t)a[0]);
		else if (op == "clear")
			f.clear();
		else if (op == "rd_pos")
			f.rd_pos((size_t)a[0]);
		else if (op == "wr_pos")
			f.wr_pos((size_t)a[0]);
		else
			harness_error(op);
		for (auto v : out)
			r << v;
		r << f.size() << f.rd_pos() << f.wr_pos();
		size_t i = 0;
		for (auto v : buf) {
			if (f.size() <= 1000)
				r << v;
			else if (v)
				r << i << v;
			i++;
		}
	}
};

template<size_t N>
std::unique_ptr<Obj> arr(size_t off)
{
	return std::make_unique<O<std::array<V, N>>>(std::array<V, N>{}, off);
}

struct Spanned {
	std::vector<V> v;
	std::span<V> s;
	Spanned(size_t n)
		: v(n)
		, s(v)
	{
	}
	using value_type = V;
	V &operator[](size_t i) { return s[i]; }
	size_t size() const { return s.size(); }
	auto begin() { return v.begin(); }
	auto end() { return v.end(); }
};

std::unique_ptr<Obj> make(const Args &c)
{
	if (c[0] == 1)
		return std::make_unique<O<std::vector<V>>>(std::vector<V>(c[1]), (size_t)c[2]);
	if (c[0] == 2)
		return std::make_unique<O<Spanned>>((size_t)c[1], (size_t)c[2]);
	switch (c[1]) {
		case 70000: return arr<70000>(c[2]);
		case 300: return arr<300>(c[2]);
		case 1: return arr<1>(c[2]);
		case 2: return arr<2>(c[2]);
		case 3: return arr<3>(c[2]);
		case 4: return arr<4>(c[2]);
		case 7: return arr<7>(c[2]);
		case 16: return arr<16>(c[2]);
	}
	return nullptr;
}
