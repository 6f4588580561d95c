#include "drv.hh"
#include "util/sequential_map.hh"
#include "elem.hh"

template<size_t N>
struct O : Obj {
	using M = SequentialMap<T, T, N>;
	M m;
	DUP(m)
	// scribble over dead stack so that a reference to an expired temporary shows
	__attribute__((noinline)) static void scribble()
	{
		volatile int x[64];
		for (int i = 0; i < 64; i++)
			x[i] = 0x5a5a;
	}
	__attribute__((noinline)) static long long const_get(const M &c, int k)
	{
		const T &ref = c[mk(k)];
		scribble();
		return val(ref);
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		const M &cm = m;
		if (op == "set")
			m[mk(a[0])] = mk(a[1]);
		else if (op == "inserts") {
			int n = 0;
			for (long long i = 0; i < a[2]; i++)
				n += m.insert({mk(a[0] + i), mk(batch(a[1], i))}).second;
			r << n;
		} else if (op == "insert") {
			auto [it, ok] = m.insert({mk(a[0]), mk(a[1])});
			bool there = it != m.end();
			r << ok << (there && it->first == mk(a[0])) << (there ? val(it->second) : 0);
		} else if (op == "find") {
			auto it = m.find(mk(a[0]));
			bool there = it != m.end();
			r << there << (there ? it - m.begin() : 0) << (there ? val(it->second) : 0) << m.contains(mk(a[0]));
			auto c = cm.find(mk(a[0]));
			if ((c != cm.end()) != there || (there && !(c->second == it->second)))
				r << -7777;
		} else if (op == "cget")
			r << const_get(cm, (int)a[0]);
		else if (op == "erase")
			r << m.erase(mk(a[0]));
		else if (op == "erase_own")
			r << m.erase(m.begin()[a[0]].first);
		else if (op == "clear")
			m.clear();
		else
			harness_error(op);
		r << cm.size() << cm.max_size() << cm.empty() << cm.is_full();
		if (cm.size() > 1000) // too many to list
			for (size_t i : {0, 1, 255, 65534, 65535, 65536, 100000}) {
				auto &p = cm.begin()[std::min(i, cm.size() - 1)];
				r << val(p.first) << val(p.second);
			}
		else
			for (auto &p : cm)
				r << val(p.first) << val(p.second);
	}
};

std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0]) {
#define CASE(n) \
	case n: return std::make_unique<O<n>>();
		CASE(300)
#if !defined(ELEM)
		CASE(65540)
#endif
		CASE(1)
		CASE(2) CASE(3) CASE(4) CASE(6) CASE(8)
	}
	return nullptr;
}
