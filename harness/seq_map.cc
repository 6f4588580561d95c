#include "drv.hh"
#include "util/seq_map.hh"
#include "util/static_string.hh"
#include "elem.hh"

// keys are exercised as ints and as StaticStrings (the documented use)
template<class K>
K key(long long k);
template<>
int key<int>(long long k)
{
	return (int)k;
}
template<>
StaticString<3> key<StaticString<3>>(long long k)
{
	static const char *n[] = {"", "a", "ab", "abc", "b", "ba"};
	return StaticString<3>{n[k]};
}

template<class K, size_t N>
struct O : Obj {
	SeqMap<K, T, N> m;
	DUP(m)
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "insert")
			r << m.insert(key<K>(a[0]), mk(a[1]));
		else if (op == "overwrite") {
			auto *p = m.overwrite(key<K>(a[0]), mk(a[1]));
			r << val(*p);
			if (p != m.get(key<K>(a[0])))
				r << -7777;
		} else if (op == "overwrite_own") {
			if (auto *q = m.get(key<K>(a[1])))
				m.overwrite(key<K>(a[0]), *q);
		} else if (op == "overwrites") {
			for (long long i = 0; i < a[2]; i++)
				m.overwrite(key<K>(a[0] + i), mk(batch(a[1], i)));
		} else if (op == "get") {
			auto *p = m.get(key<K>(a[0]));
			r << (p != nullptr) << (p ? val(*p) : 0);
		} else if (op == "remove_own") {
			// the map's own copy of the key is what names the entry
			auto k = key<K>(a[0]);
			auto at = [&k](auto &mm) -> const K * {
				if constexpr (requires { mm.keys[0] == k; })
					for (size_t i = 0; i < mm.size(); i++)
						if (mm.keys[i] == k)
							return &mm.keys[i];
				return &k;
			}(m);
			r << m.remove(*at);
		} else if (op == "remove")
			r << m.remove(key<K>(a[0]));
		else if (op == "remove_last")
			m.remove_last();
		else
			harness_error(op);
		r << m.size();
		for (int k = 0; k <= 5; k++) {
			auto *p = m.get(key<K>(k));
			r << (p != nullptr) << (p ? val(*p) : 0);
			if (m.key_exists(key<K>(k)) != (p != nullptr))
				r << -7778;
		}
	}
};

std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0]) {
#ifdef STRKEY
#define CASE(n) \
	case n: return std::make_unique<O<StaticString<3>, n>>();
#else
#define CASE(n) \
	case n: return std::make_unique<O<int, n>>();
#endif
#ifndef STRKEY
		CASE(300)
#if !defined(ELEM)
		CASE(65540)
#endif
#endif
		CASE(1)
		CASE(2) CASE(3) CASE(4) CASE(5)
	}
	return nullptr;
}
