#include "drv.hh"
#include "util/fixed_vector.hh"
#include "elem.hh"

template<size_t N>
struct O : Obj {
	using V = FixedVector<T, N>;
	std::unique_ptr<V> p;
	DUP(p)
	template<size_t K>
	static V *mkv(const Args &c)
	{
		if constexpr (K > N)
			harness_error("too many values");
		else if constexpr (K == 0)
			return new V{};
		else if constexpr (K == 1)
			return new V{mk(c[1])};
		else if constexpr (K == 2)
			return new V{mk(c[1]), mk(c[2])};
		else
			return new V{mk(c[1]), mk(c[2]), mk(c[3])};
	}
	O(const Args &c)
	{
		p.reset(c.size() == 1 ? mkv<0>(c) : c.size() == 2 ? mkv<1>(c) : c.size() == 3 ? mkv<2>(c) : mkv<3>(c));
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		V &v = *p;
		if (op == "pushes") {
			int n = 0;
			for (long long i = 0; i < a[1]; i++)
				n += v.push_back(mk(batch(a[0], i)));
			r << n;
		} else if (op == "push")
			r << v.push_back(mk(a[0]));
		else if (op == "pop")
			r << val(v.pop_back());
		else if (op == "resize")
			r << v.resize(HUGE_SIZE(a[0]), mk(a[1]));
		else if (op == "resize_def")
			r << v.resize(HUGE_SIZE(a[0]));
		else if (op == "resize_ow") {
			size_t n = v.size();
			r << v.resize_for_overwrite(HUGE_SIZE(a[0]));
			for (size_t i = n; i < v.size(); i++)
				v[i] = mk(a[1]);
		} else if (op == "push_ow") {
			size_t i = v.push_back_for_overwrite();
			r << i;
			if (i < N)
				v[i] = mk(a[0]);
		} else if (op == "insert")
			v.insert(a[0], mk(a[1]));
		else if (op == "insert_own")
			v.insert(a[0], v[a[1]]);
		else if (op == "push_own")
			r << v.push_back(v[a[0]]);
		else if (op == "resize_own")
			r << v.resize((size_t)a[0], v[a[1]]);
		else if (op == "erase")
			v.erase((unsigned)a[0]);
		else if (op == "erase_range")
			v.erase(&v[0] + a[0], &v[0] + a[1]);
		else if (op == "set")
			v[a[0]] = mk(a[1]);
		else if (op == "clear")
			v.clear();
		else
			harness_error(op);
		const V &cv = v;
		r << cv.size() << cv.max_size() << v.available() << val(cv.back());
		// the three views must agree: iterators, index, span
		std::vector<T> x{cv.begin(), cv.end()}, y, z;
		for (size_t i = 0; i < cv.size() && i < N; i++)
			y.push_back(cv[i]);
		for (auto e : v.span())
			z.push_back(e);
		auto cs = cv.span();
		if (x != y || y != z || x != std::vector<T>(cs.begin(), cs.end()))
			r << -7777;
		for (size_t i = 0; i < x.size(); i++)
			if (N <= 1000 || i < 2 || (i >= 65534 && i <= 65537) || i + 2 >= x.size())
				r << val(x[i]);
	}
};

std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0]) {
#define CASE(n) \
	case n: return std::make_unique<O<n>>(c);
		CASE(300)
		CASE(70000)
		CASE(1)
		CASE(2) CASE(3) CASE(4) CASE(5) CASE(6) CASE(7) CASE(8) CASE(12) CASE(16)
	}
	return nullptr;
}
