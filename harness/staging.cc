#include "drv.hh"
#include "elem.hh"
#include "util/byte_block.hh"
#include "util/input_output_buffer.hh"

struct Pair { // not an int: starts out as {7, 8}
	int x = 7, y = 8;
};
struct Held { // owns heap storage: moved-from or bitwise copied ones show
	std::unique_ptr<int> p = std::make_unique<int>(0);
	Held() = default;
	Held(int v) : p{std::make_unique<int>(v)} {}
	Held(Held &&) = default;
	Held(const Held &o) { *this = o; }
	Held &operator=(Held &&) = default;
	Held &operator=(const Held &o)
	{
		p = o.p ? std::make_unique<int>(*o.p) : nullptr;
		return *this;
	}
};
static Held in(int v, Held) { return {v}; }
static void show(Out &r, const Held &h) { r << (h.p ? *h.p : -7776); }
static int in(int v, int) { return v; }
static Pair in(int v, Pair) { return {v, -v}; }
static void show(Out &r, int v) { r << v; }
static void show(Out &r, Pair p) { r << p.x << p.y; }

template<class V, size_t N>
struct InB : Obj {
	InputBuffer<V, N> b;
	DUP(b)
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "put")
			b.put(in((int)a[0], V{}));
		else if (op == "puts")
			for (long long i = 0; i < a[1]; i++)
				b.put(in((int)batch(a[0], i), V{}));
		else if (op == "reset")
			b.reset();
		else if (op == "poke")
			b.data()[a[0]] = in((int)a[1], V{});
		r << b.full() << b.size();
		if (op == "at")
			show(r, b.begin()[a[0]]);
		if (op == "see") {
			for (auto &x : b)
				show(r, x);
			r << (b.end() - b.begin()) << (b.data() == b.begin());
		}
	}
};
template<class V, size_t N>
struct OutB : Obj {
	OutputBuffer<V, N> b;
	DUP(b)
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "get")
			show(r, b.get());
		else if (op == "gets")
			for (long long i = 0; i < a[0]; i++)
				show(r, b.get());
		else if (op == "reset")
			b.reset();
		else if (op == "fill")
			std::fill(b.begin(), b.end(), in((int)a[0], V{}));
		else if (op == "poke")
			b.data()[a[0]] = in((int)a[1], V{});
		r << b.full() << b.size();
		if (op == "at")
			show(r, b.begin()[a[0]]);
		if (op == "see") {
			for (auto &x : b)
				show(r, x);
			r << (b.end() - b.begin()) << (b.data() == b.begin());
		}
	}
};
struct Bytes : Obj {
	ByteBlock b;
	DUP(b)
	void op(const std::string &op, const Args &a, Out &r) override
	{
		uint32_t w = a.size() > 1 ? (uint32_t)a[0] | (uint32_t)a[1] << 16 : a.empty() ? 0 : (uint32_t)a[0];
		if (op == "p8")
			b.print((uint8_t)w);
		else if (op == "p16")
			b.print((uint16_t)w);
		else if (op == "p32")
			b.print(w);
		else if (op == "u8")
			b.printU8((uint8_t)w);
		else if (op == "u16")
			b.printU16LE((uint16_t)w);
		else if (op == "u32")
			b.printU32LE(w);
		else if (op == "raw") {
			std::unique_ptr<unsigned char[]> x(new unsigned char[a.size()]);
			for (size_t i = 0; i < a.size(); i++)
				x[i] = (unsigned char)a[i];
			b.printRaw(x.get(), a.size());
			for (size_t i = 0; i < a.size(); i++)
				if (x[i] != (unsigned char)a[i])
					r << -1;
		} else if (op == "rawpat") {
			std::vector<unsigned char> x(a[0]);
			for (size_t i = 0; i < x.size(); i++)
				x[i] = (unsigned char)(i % 251);
			b.printRaw(x.data(), x.size());
		} else if (op == "at")
			r << (int)b.data.at(a[0]);
		else if (op == "see")
			for (auto x : b.data)
				r << (int)x;
		r << b.data.size();
	}
};
std::unique_ptr<Obj> make(const Args &c)
{
	if (c[0] == 2)
		return std::make_unique<Bytes>();
#define K(B, N) c[2] == 0 ? std::unique_ptr<Obj>(new B<int, N>) : c[2] == 1 ? std::unique_ptr<Obj>(new B<Pair, N>) : std::unique_ptr<Obj>(new B<Held, N>)
#define BY(N) case N: return c[0] == 0 ? (K(InB, N)) : K(OutB, N);
	switch (c[1]) {
		BY(300)
		BY(66000)
		BY(1)
		BY(2)
		BY(3)
		BY(8)
	}
	return nullptr;
}
