#include "drv.hh"
#include "util/partition.hh"

template<unsigned N, unsigned M, class T, int Shift = 0> // values are multiples of 2^Shift
struct O : Obj {
	static T val(long long x) { return (T)x * (T)(1ull << Shift); }
	Partition<N, M, T> p;
	DUP(p)
	void show(Out &r)
	{
		for (auto &g : p.parts) {
			r << g.size();
			for (auto i : g)
				r << i;
		}
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "look") { // the groups as they were left
			show(r);
			return;
		}
		size_t n = a[0], m = a[n + 1];
		T *v = (T *)malloc(n * sizeof(T) + 1), *ini = (T *)malloc(m * sizeof(T) + 1);
		for (size_t i = 0; i < n; i++)
			v[i] = val(a[1 + i]);
		for (size_t i = 0; i < m; i++)
			ini[i] = val(a[n + 2 + i]);
		if (op == "ctor")
			p = Partition<N, M, T>(std::span<T>(v, n));
		else if (m)
			p.calc_partitions(std::span<T>(v, n), std::span<const T>(ini, m));
		else
			p.calc_partitions(std::span<T>(v, n));
		show(r);
		bool same = true;
		for (size_t i = 0; i < n; i++)
			same &= v[i] == val(a[1 + i]);
		for (size_t i = 0; i < m; i++)
			same &= ini[i] == val(a[n + 2 + i]);
		r << same;
		free(v);
		free(ini);
	}
};
std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[1] == 300 ? 5000 : c[0] * 1000 + c[1] * 10 + c[2]) {
		case 1040: return std::make_unique<O<1, 4, unsigned>>();
		case 2080: return std::make_unique<O<2, 8, unsigned>>();
		case 2081: return std::make_unique<O<2, 8, int>>();
		case 3060: return std::make_unique<O<3, 6, unsigned>>();
		case 3062: return std::make_unique<O<3, 6, float>>();
		case 4330: return std::make_unique<O<4, 33, unsigned>>();
		case 4333: return std::make_unique<O<4, 33, uint16_t>>();
		case 5000: return std::make_unique<O<3, 300, unsigned>>();
		case 3064: return std::make_unique<O<3, 6, uint64_t, 32>>();
		case 3065: return std::make_unique<O<3, 6, double, 40>>();
		case 3066: return std::make_unique<O<3, 6, int64_t, 30>>();
		case 8200: return std::make_unique<O<8, 20, unsigned>>();
	}
	return nullptr;
}
