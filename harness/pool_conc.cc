#include "conc.hh"
#include "util/thread_safe_pool.hh"

using vt::Elem;

template<size_t N>
struct W : vt::World {
	using P = cpputil::ThreadSafePool<Elem, N>;
	std::unique_ptr<P> p = std::make_unique<P>();
	std::array<std::vector<long long>, vt::MAXT> own;
	void call(int t, const vt::Op &op, std::vector<long long> &r) override
	{
		auto &[o, a] = op;
		if (o == "create") {
			auto i = p->create();
			r.push_back(i ? (long long)*i : -1);
			if (i)
				own[t].push_back((long long)*i);
		} else if (o == "destroy_mine") {
			// gives back the slot created last and not yet given back; -1 when there is none
			if (own[t].empty()) {
				r = {-1, 0};
				return;
			}
			auto i = own[t].back();
			own[t].pop_back();
			r = {i, p->destroy((size_t)i)};
		} else if (o == "destroy")
			r.push_back(p->destroy((size_t)a[0]));
		else if (o == "is_used")
			r.push_back(p->is_used((size_t)a[0]));
		else if (o == "store") {
			// the owner stores into its newest slot
			if (!own[t].empty() && own[t].back() < (long long)N)
				(*p)[own[t].back()] = Elem((int)a[0]);
		} else if (o == "fetch") {
			if (own[t].empty() || own[t].back() >= (long long)N)
				r = {-1};
			else {
				Elem e = (*p)[own[t].back()];
				r = {e.val()};
			}
		} else if (o == "clear")
		{
			// by the owner of all slots that are taken
			own[t].clear();
			p->clear();
		}
		else {
			fprintf(stderr, "HARNESS-ERROR op %s\n", o.c_str());
			_exit(77);
		}
	}
	void describe(std::vector<long long> &r) override
	{
		for (auto &o : own)
			r.insert(r.end(), o.begin(), o.end());
	}
	void finish(std::vector<long long> &r) override
	{
		// how many slots can still be had, and which are taken now
		for (size_t i = 0; i < N; i++)
			r.push_back(p->is_used(i));
		std::set<size_t> got;
		for (size_t k = 0; k <= N; k++) {
			auto i = p->create();
			if (!i)
				break;
			got.insert(*i);
			r.push_back(1);
		}
		r.push_back((long long)got.size());
	}
};

std::unique_ptr<vt::World> make_world(const std::vector<long long> &c)
{
	std::unique_ptr<vt::World> w;
	switch (c[0]) {
		case 1: w = std::make_unique<W<1>>(); break;
		case 2: w = std::make_unique<W<2>>(); break;
		case 3: w = std::make_unique<W<3>>(); break;
		case 4: w = std::make_unique<W<4>>(); break;
	}
	std::vector<long long> r;
	for (int t = 0; w && t < (int)c.size() - 1; t++)
		for (int i = 0; i < c[t + 1]; i++)
			w->call(t, {"create", {}}, r);
	return w;
}
