#include "drv.hh"
#include "elem.hh"
#include "util/thread_safe_pool.hh"

template<size_t N>
struct O : Obj {
	std::unique_ptr<cpputil::ThreadSafePool<T, N>> p = std::make_unique<cpputil::ThreadSafePool<T, N>>();
	O()
	{
		for (size_t i = 0; i < N; i++)
			(*p)[i] = mk(0);
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "create") {
			auto i = p->create();
			r << (i ? (long long)*i : -1);
		} else if (op == "creates") {
			int n = 0;
			std::set<size_t> got;
			for (long long i = 0; i < a[0]; i++)
				if (auto x = p->create()) {
					n++;
					got.insert(*x);
				}
			r << n << ((int)got.size() == n && (got.empty() || *got.rbegin() < N));
		} else if (op == "destroy")
			r << p->destroy(HUGE_SIZE(a[0]));
		else if (op == "is_used")
			r << p->is_used(HUGE_SIZE(a[0]));
		else if (op == "store")
			(*p)[(size_t)a[0]] = mk(a[1]);
		else if (op == "clear")
			p->clear();
		else
			harness_error(op);
		r << p->size();
		for (size_t i = 0; i < N; i++)
			r << p->is_used(i);
		for (size_t i = 0; i < N; i++)
			r << val((*p)[i]) << (&std::as_const(*p)[i] == &(*p)[i]);
	}
};

std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0]) {
		case 1: return std::make_unique<O<1>>();
		case 2: return std::make_unique<O<2>>();
		case 3: return std::make_unique<O<3>>();
		case 4: return std::make_unique<O<4>>();
		case 300: return std::make_unique<O<300>>();
		case 5: return std::make_unique<O<5>>();
	}
	return nullptr;
}
