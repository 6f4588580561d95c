// Element types of the container drivers: ELEM 0 int, 1 a byte, 2 a 16-byte struct, 3 16 bits,
// 4 a type that owns heap storage (a moved-from or wrongly copied one shows)
#pragma once
#include <cstddef>
// the j-th value of a batch of calls (Batch in Common.tla)
[[maybe_unused]] static long long batch(long long v, size_t j) { return 1 + (v + (long long)j - 1) % 200; }
#if ELEM == 1
using T = uint8_t;
[[maybe_unused]] static T mk(long long v) { return (T)v; }
[[maybe_unused]] static long long val(const T &t) { return t; }
#elif ELEM == 2
struct T {
	int a = 0, b = 0, c = 0, d = 0;
};
[[maybe_unused]] static T mk(long long v) { return {(int)v, (int)(v ^ 0x55), (int)~v, (int)v}; }
[[maybe_unused]] static long long val(const T &t)
{
	return (t.a == 0 && t.b == 0 && t.c == 0 && t.d == 0) || (t.b == (t.a ^ 0x55) && t.c == ~t.a && t.d == t.a) ? t.a : -7777;
}
#elif ELEM == 3
using T = int16_t;
[[maybe_unused]] static T mk(long long v) { return (T)v; }
[[maybe_unused]] static long long val(const T &t) { return t; }
#elif ELEM == 4
#include <memory>
struct T {
	std::unique_ptr<int> p = std::make_unique<int>(0);
	T() = default;
	explicit T(int v)
		: p{std::make_unique<int>(v)}
	{
	}
	T(const T &o)
		: p{o.p ? std::make_unique<int>(*o.p) : nullptr}
	{
	}
	T(T &&) = default;
	T &operator=(const T &o)
	{
		p = o.p ? std::make_unique<int>(*o.p) : nullptr;
		return *this;
	}
	T &operator=(T &&) = default;
	bool operator==(const T &o) const { return p && o.p && *p == *o.p; }
};
[[maybe_unused]] static T mk(long long v) { return T((int)v); }
[[maybe_unused]] static long long val(const T &t) { return t.p ? *t.p : -7776; }
#else
using T = int;
[[maybe_unused]] static T mk(long long v) { return (T)v; }
[[maybe_unused]] static long long val(const T &t) { return t; }
#endif
