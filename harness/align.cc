#include "drv.hh"
#include "util/aligned_allocator.hh"
#include "util/padded_aligned.hh"

template<class T, size_t Al>
void padded(Out &r)
{
	using P = PaddedAligned<T, Al>;
	P on_stack;
	std::vector<P> v(3);
	auto mod = [](const void *p) { return (uintptr_t)p % Al; };
	r << sizeof(T) << Al << sizeof(P) << alignof(P);
	r << mod(&on_stack) << mod(&v[1].data) << ((char *)&v[2] - (char *)&v[1]) << ((char *)&v[1].data - (char *)&v[1]);
	// the wrapped value is reachable both ways, and starts out value-initialised
	T zero{};
	T &x = v[1], &y = v[1]();
	const P &cv = v[1];
	const T &c = cv, &n = v[1];
	bool same = &c == &x && &n == &x;
	if constexpr (!std::is_array_v<T>) { // reading it by conversion
		v[2]() = T(7);
		T copy = v[2], copy2 = std::as_const(v[2]);
		same = same && copy == T(7) && copy2 == T(7);
	}
	r << (same && &x == &v[1].data && &y == &x && !memcmp(&x, &zero, sizeof(T)));
}
struct Blk {
	char *p;
	size_t n, bytes;
};
struct Base : Obj {
	void op(const std::string &, const Args &, Out &) override {}
};
template<class T, size_t Al>
struct O : Obj {
	AlignedAllocator<T, Al> al;
	std::map<int, Blk> live;
	~O()
	{
		for (auto &[i, b] : live)
			al.deallocate((T *)b.p, b.n);
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "alloc") { // slot, count, through: 0 itself, 1 rebound copy
			T *p;
			if (a[2]) {
				AlignedAllocator<char, Al> other;
				typename std::allocator_traits<AlignedAllocator<char, Al>>::template rebind_alloc<T> back(other);
				p = back.allocate(a[1]);
				r << (back == al) << (back != al);
			} else {
				p = al.allocate(a[1]);
				r << 1 << 0;
			}
			uintptr_t x = (uintptr_t)p;
			r << (x >> 24) << (x & 0xffffff);
			if (p) {
				live[a[0]] = {(char *)p, (size_t)a[1], (size_t)a[1] * sizeof(T)};
				memset(p, (int)a[0] + 1, a[1] * sizeof(T)); // the sanitizer watches the ends
			}
		} else if (op == "free") {
			auto b = live.at(a[0]);
			bool ok = true;
			for (size_t i = 0; i < b.bytes; i++)
				ok &= b.p[i] == (char)(a[0] + 1);
			r << ok;
			al.deallocate((T *)b.p, b.n);
			live.erase(a[0]);
		} else if (op == "huge") { // more than there is: nothing, or at least not too little
			size_t n = (size_t)-1 / sizeof(T) - a[0];
			T *p = nullptr;
			if (a[1])
				n = (size_t)-1 / (sizeof(T) * 1) + 1 + a[0]; // n * sizeof(T) wraps around
			p = al.allocate(n);
			r << (p == nullptr);
		} else if (op == "vector") {
			std::vector<T, AlignedAllocator<T, Al>> v;
			bool ok = true;
			for (long long i = 0; i < a[0]; i++) {
				v.push_back(T{});
				ok &= (uintptr_t)v.data() % Al == 0;
			}
			r << ok;
		} else if (op == "padded") {
			switch (a[0]) {
				case 0: padded<char, 4>(r); break;
				case 1: padded<char[3], 16>(r); break;
				case 2: padded<int, 32>(r); break;
				case 3: padded<char[64], 64>(r); break;
				case 4: padded<char[65], 64>(r); break;
				case 5: padded<double, 8>(r); break;
				case 6: padded<char[40], 32>(r); break;
				case 7: padded<char[200], 128>(r); break;
				case 8: padded<char[300], 512>(r); break;
				case 9: padded<char[70000], 64>(r); break;
				case 10: padded<short[1000], 1024>(r); break;
				default: harness_error("padded");
			}
		} else
			harness_error(op);
	}
};
std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0] * 1000 + c[1]) {
		case 1064: return std::make_unique<O<char, 64>>();
		case 4064: return std::make_unique<O<int, 64>>();
		case 4016: return std::make_unique<O<int, 16>>();
		case 8032: return std::make_unique<O<double, 32>>();
		case 24128: return std::make_unique<O<std::array<double, 3>, 128>>();
		case 5 * 1000 + 4096: return std::make_unique<O<std::array<char, 5>, 4096>>();
	}
	return nullptr;
}
