#include "drv.hh"
#include "util/interp_param.hh"

template<class T>
constexpr int DEN = std::is_floating_point_v<T> ? 16 : 1;
template<class T>
T in(long long k) { return (T)k / (T)DEN<T>; }
template<class T>
long double outv(T v) { return (long double)v * DEN<T>; }

template<class T>
struct Fix : Obj {
	InterpParam<T, 4> p;
	DUP(p)
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "set")
			p.set_new_value(in<T>(a[0]));
		else if (op == "next")
			r << outv(p.next());
		else
			harness_error(op);
		r << outv(p.get_step_size()) << outv(p.cur_val);
	}
};
template<class T>
struct Var : Obj {
	InterpParamVar<T> p;
	DUP(p)
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "set")
			p.set_new_value(in<T>(a[0]), a[1]);
		else if (op == "next")
			r << outv(p.next());
		else if (op == "snap")
			r << outv(p.snap_to_target());
		else
			harness_error(op);
		r << outv(p.get_step_size());
	}
};
template<class T>
struct Variable : Obj {
	InterpParamVariable<T> p;
	DUP(p)
	Variable(unsigned n)
		: p(n)
	{}
	Variable() = default; // 256 updates
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "set")
			p.set_new_value(in<T>(a[0]));
		else if (op == "next")
			r << outv(p.next());
		else if (op == "setnum")
			p.set_num_updates(a[0]);
		else
			harness_error(op);
		r << outv(p.get_step_size()) << outv(p.cur_val) << outv(p.target_val) << p.get_num_updates();
	}
};
template<class T>
std::unique_ptr<Obj> mk(const Args &c)
{
	if (c[0] == 0)
		return std::make_unique<Fix<T>>();
	if (c[0] == 1)
		return std::make_unique<Var<T>>();
	if (c[2] == 256)
		return std::make_unique<Variable<T>>();
	return std::make_unique<Variable<T>>(c[2]);
}
std::unique_ptr<Obj> make(const Args &c) { return c[1] ? mk<float>(c) : mk<int>(c); }
