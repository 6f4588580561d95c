#include "conc.hh"
#include "util/filter.hh"
#include "util/filtered_interp_array.hh"

struct W : vt::World {
	FilteredInterpArray<1, NoFilter<int>, int> p;
	std::atomic<int> data{0};
	void call(int t, const vt::Op &op, std::vector<long long> &r) override
	{
		auto &[o, a] = op;
		if (o == "write")
			data.store((int)a[0], std::memory_order_relaxed);
		else if (o == "mark")
			p.mark_new_data_ready();
		else if (o == "read") {
			r.push_back(0);
			p.add_new_readings([&](unsigned) {
				int v = data.load(std::memory_order_relaxed);
				r[0]++;
				r.push_back(v);
				return v;
			});
		}
	}
	void finish(std::vector<long long> &r) override
	{
		p.add_new_readings([&](unsigned) { return data.load(); });
		p.set_num_updates(0);
		p.get_interp_values([&](unsigned, int v) { r.push_back(v); });
	}
};
std::unique_ptr<vt::World> make_world(const std::vector<long long> &c) { return std::make_unique<W>(); }
