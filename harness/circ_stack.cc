#include "drv.hh"
#include "util/circular_stack.hh"
#include "elem.hh"

template<int N>
struct O : Obj {
	CircularStack<T, N> s;
	DUP(s)
	O(const Args &c)
		: s{c.size() == 1 ? CircularStack<T, N>{} :
			c.size() == 2 ? mks<1>(c) :
			c.size() == 3 ? mks<2>(c) :
							mks<3>(c)}
	{
	}
	template<int K>
	static CircularStack<T, N> mks(const Args &c)
	{
		if constexpr (K > N)
			harness_error("too many values");
		else if constexpr (K == 1)
			return CircularStack<T, N>{mk(c[1])};
		else if constexpr (K == 2)
			return CircularStack<T, N>{mk(c[1]), mk(c[2])};
		else
			return CircularStack<T, N>{mk(c[1]), mk(c[2]), mk(c[3])};
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "pushes") {
			for (long long i = 0; i < a[1]; i++)
				s.push_back(mk(batch(a[0], i)));
		} else if (op == "pops") {
			for (long long i = 0; i < a[0]; i++) {
				auto x = s.pop_back();
				r << (x ? val(*x) : -7777);
			}
		} else if (op == "push")
			s.push_back(mk(a[0]));
		else if (op == "pop") {
			auto x = s.pop_back();
			r << x.has_value() << (x ? val(*x) : 0);
		} else if (op == "popz")
			r << val(s.pop_back_or_zero());
		else if (op == "clear")
			s.clear();
		else if (op != "look")
			harness_error(op);
		auto b = s.back();
		r << s.size() << s.max_size() << s.empty() << b.has_value() << (b ? val(*b) : 0);
	}
};

std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0]) {
#define CASE(n) \
	case n: return std::make_unique<O<n>>(c);
		CASE(300)
		CASE(70000)
		CASE(1)
		CASE(2) CASE(3) CASE(4) CASE(5) CASE(7) CASE(8) CASE(13) CASE(16)
	}
	return nullptr;
}
