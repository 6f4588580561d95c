#include "drv.hh"
#include "util/interp_array.hh"
#include "util/lut.hh"

// results are multiplied up to whole numbers: an inexact one shows as a fraction, reported apart
static void whole(Out &r, double x)
{
	double f = std::floor(x);
	r << f << (f != x);
}
static int pat(size_t i) { return (int)((i % 1009) * 7 % 101 + i % 13); }
// indices in 1/q, phases in 1/4q
template<class T, unsigned N, class P>
struct Arr : Obj {
	InterpArray<T, N, P> t{};
	DUP(t)
	int q;
	Arr(int q) : q{q} {}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		const auto &c = t;
		if (op == "load")
			for (unsigned i = 0; i < N; i++)
				if (i % 3 == 0)
					t[i] = (T)a[i];
				else if (i % 3 == 1)
					t.set(i) = (T)a[i];
				else
					t.set(i, (T)a[i]);
		else if (op == "pat")
			for (unsigned i = 0; i < N; i++)
				t.set(i, (T)pat(i));
		else if (op == "put") {
			if (a[2] == 0)
				t[a[0]] = (T)a[1];
			else if (a[2] == 1)
				t.set(a[0]) = (T)a[1];
			else
				t.set(a[0], (T)a[1]);
		} else if (op == "get")
			r << (double)c[a[0]] << (double)t.get(a[0]);
		else if (op == "index")
			whole(r, (double)c.interp_by_index((P)a[0] / (P)q) * q);
		else if (op == "indexw")
			whole(r, (double)c.interp_by_index_wrap((P)a[0] / (P)q) * q);
		else if (op == "interp")
			whole(r, (double)c.interp((P)a[0] / (P)(4 * q)) * 4 * q);
		else if (op == "interpw")
			whole(r, (double)c.interp_wrap((P)a[0] / (P)(4 * q)) * 4 * q);
		else if (op == "closest")
			r << (double)c.closest((P)a[0] / (P)(4 * q));
		else if (op == "closestw")
			r << (double)c.closest_wrap((P)a[0] / (P)(4 * q));
		else
			harness_error(op);
	}
};
// lookup tables: input in 1/q
template<class T, size_t N>
struct Look : Obj {
	std::unique_ptr<LookupTable<N, T>> t;
	double width = 1;
	int q;
	Look(int q) : q{q} {}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "fill") { // first input, last input, points
			std::array<T, N> p;
			for (size_t i = 0; i < N; i++)
				p[i] = (T)a[2 + i];
			width = std::abs((double)(a[1] - a[0]));
			t = std::make_unique<LookupTable<N, T>>((T)a[0], (T)a[1], p);
		} else if (op == "fillpat") {
			auto p = std::make_unique<std::array<T, N>>();
			for (size_t i = 0; i < N; i++)
				(*p)[i] = (T)pat(i);
			width = std::abs((double)(a[1] - a[0]));
			t = std::make_unique<LookupTable<N, T>>((T)a[0], (T)a[1], *p);
		} else if (op == "look")
			whole(r, (double)t->lookup((T)a[0] / (T)q) * q * width);
		else if (op == "call")
			whole(r, (double)(*t)((T)a[0] / (T)q) * q * width);
		else
			harness_error(op);
	}
};
struct R1 {
	static constexpr float min = -2.f, max = 2.f;
};
struct R2 {
	static constexpr float min = 1.f, max = 9.f;
};
struct R3 {
	static constexpr float min = -0.75f, max = 1.25f;
};
template<class T>
struct Gen : Obj {
	void op(const std::string &op, const Args &a, Out &r) override
	{
		static constexpr auto sq = LookupTable<5, T>::template generate<R1>([](auto x) { return x * x; });
		static constexpr auto li = LookupTable<9, T>::template generate<R1>([](auto x) { return 3 * x + 1; });
		static constexpr auto s2 = LookupTable<17, T>::template generate<R2>([](auto x) { return x * x; });
		static constexpr auto s3 = LookupTable<5, T>::template generate<R3>([](auto x) { return x * x; });
		if (op != "at")
			harness_error(op);
		T x = (T)a[1] / 16;
		whole(r, (double)(a[0] == 0 ? sq.lookup(x) : a[0] == 1 ? li.lookup(x) : a[0] == 3 ? s3.lookup(x) : s2.lookup(x)) * 256);
	}
};
std::unique_ptr<Obj> make(const Args &c)
{
	int q = c.size() > 2 ? c[2] : 16;
	if (c[0] == 2)
		return c[1] ? std::unique_ptr<Obj>(new Gen<double>) : std::unique_ptr<Obj>(new Gen<float>);
	if (c[0] == 1) {
		switch (c[1]) {
			case 2: return std::make_unique<Look<float, 2>>(q);
			case 3: return std::make_unique<Look<float, 3>>(q);
			case 5: return std::make_unique<Look<float, 5>>(q);
			case 6: return std::make_unique<Look<double, 6>>(q);
			case 9: return std::make_unique<Look<double, 9>>(q);
			case 257: return std::make_unique<Look<double, 257>>(q);
			case 131073: return std::make_unique<Look<double, 131073>>(q);
		}
		return nullptr;
	}
	switch (c[1]) {
		case 1: return std::make_unique<Arr<float, 1, float>>(q);
		case 2: return std::make_unique<Arr<float, 2, float>>(q);
		case 3: return std::make_unique<Arr<float, 3, float>>(q);
		case 4: return std::make_unique<Arr<double, 4, double>>(q);
		case 5: return std::make_unique<Arr<double, 5, float>>(q);
		case 8: return std::make_unique<Arr<float, 8, float>>(q);
		case 300: return std::make_unique<Arr<double, 300, double>>(q);
		case 66000: return std::make_unique<Arr<double, 66000, double>>(q);
	}
	return nullptr;
}
