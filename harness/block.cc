#include "drv.hh"
#include "util/circular_buffer_block.hh"
#include "elem.hh"

template<size_t N>
struct O : Obj {
	CircularBufferBlock<T, N> b;
	DUP(b)
	void op(const std::string &op, const Args &a, Out &r) override
	{
		std::vector<T> v;
		for (size_t i = 1; i < a.size(); i++)
			v.push_back(mk(a[i]));
		if (op == "pat") { // start, count, first value
			v.clear();
			for (long long j = 0; j < a[1]; j++)
				v.push_back(mk(1 + (a[2] + j) % 100));
			b.write(std::span<const T>{v}, (unsigned)a[0]);
		} else if (op == "write")
			b.write(std::span<const T>{v}, (unsigned)a[0]);
		else
			harness_error(op);
		r << b.size();
		if (N <= 1000)
			for (auto &x : b.data)
				r << val(x);
		else // a large ring: the elements around the ends and the 16-bit boundary
			for (size_t i : {(size_t)0, (size_t)1, (size_t)2, (size_t)65534, (size_t)65535, (size_t)65536, (size_t)65537, (size_t)65538, N - 2, N - 1})
				r << val(b.data[i]);
	}
};

std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0]) {
		case 512: return std::make_unique<O<512>>();
		case 131072: return std::make_unique<O<131072>>();
		case 1: return std::make_unique<O<1>>();
		case 2: return std::make_unique<O<2>>();
		case 4: return std::make_unique<O<4>>();
		case 8: return std::make_unique<O<8>>();
		case 32: return std::make_unique<O<32>>();
	}
	return nullptr;
}
