#include "drv.hh"
#include "util/filter.hh"
#include "util/filtered_interp_array.hh"

template<size_t N, class F>
struct O : Obj {
	FilteredInterpArray<N, F, int> p;
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "mark")
			p.mark_new_data_ready();
		else if (op == "setnum")
			p.set_num_updates(a[0]);
		else if (op == "read")
			p.add_new_readings([&](unsigned i) {
				r << i;
				return i < a.size() ? (int)a[i] : -9999;
			});
		else if (op == "updates") { // many, of which the last is shown
			std::vector<std::pair<unsigned, int>> last;
			for (long long k = 0; k < a[0]; k++) {
				last.clear();
				p.get_interp_values([&](unsigned i, int v) { last.push_back({i, v}); });
			}
			for (auto [i, v] : last)
				r << i << v;
		} else if (op == "update")
			p.get_interp_values([&](unsigned i, int v) { r << i << v; });
		else
			harness_error(op);
		if (p.size() != N)
			r << -1;
	}
};
std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0] * 10 + c[1]) {
		case 3002: return std::make_unique<O<300, MovingAverage<2, int>>>();
		case 11: return std::make_unique<O<1, NoFilter<int>>>();
		case 21: return std::make_unique<O<2, NoFilter<int>>>();
		case 31: return std::make_unique<O<3, NoFilter<int>>>();
		case 24: return std::make_unique<O<2, MovingAverage<4, int>>>();
		case 82: return std::make_unique<O<8, MovingAverage<2, int>>>();
	}
	return nullptr;
}
