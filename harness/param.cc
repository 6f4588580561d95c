#include "drv.hh"
#include "util/parameter.hh"

template<class T>
constexpr int DEN = std::is_floating_point_v<T> ? 16 : 1;
template<class T>
T in(long long k) { return (T)(k / (std::is_floating_point_v<T> ? (T)16 : (T)1)); }
template<>
int in<int>(long long k) { return (int)k; }
template<>
unsigned in<unsigned>(long long k) { return (unsigned)k; }
template<>
uint8_t in<uint8_t>(long long k) { return (uint8_t)k; }
template<class T>
long double outv(T v) { return (long double)v * DEN<T>; }

template<class T>
struct P : Obj {
	std::unique_ptr<Parameter<T>> p;
	DUP(p)
	P(const Args &c)
		: p(c[4] ? std::make_unique<Parameter<T>>(in<T>(c[3])) : std::make_unique<Parameter<T>>())
	{}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "set")
			p->setValue(in<T>(a[0]));
		else if (op == "assign")
			*p = in<T>(a[0]);
		else if (op == "changed")
			r << p->isChanged();
		else
			harness_error(op);
		const auto &c = *p;
		r << outv(c.getValue()) << outv((T)c);
	}
};

template<class T>
struct R : Obj {
	T ref;
	RefParameter<T> p;
	DUP(p)
	R(const Args &c)
		: ref(in<T>(c[3])), p(ref)
	{}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "set")
			p.setValue(in<T>(a[0]));
		else if (op == "assign")
			p = in<T>(a[0]);
		else if (op == "poke")
			ref = in<T>(a[0]);
		else if (op == "changed")
			r << p.isChanged();
		else
			harness_error(op);
		if (ref != p.getValue())
			r << -1;
		r << outv(p.getValue()) << outv((T)p);
	}
};

template<class T, unsigned Num, unsigned Den>
struct L : Obj {
	LatchedParam<T, Num, Den> p, w;
	DUP(p, w)
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "store")
			r << p.store_changed(in<T>(a[0]));
		else if (op == "assign")
			p = in<T>(a[0]);
		else if (op == "changed")
			r << p.did_change();
		else if (op == "save")
			w = p;
		else if (op == "restore")
			p = w;
		else
			harness_error(op);
		r << outv((T)p) << outv(p.val) << p.changed << outv(w.val) << w.changed;
	}
};

std::unique_ptr<Obj> make(const Args &c)
{
	if (c[0] == 1)
		switch (c[1] * 1000 + c[2]) {
			case 10: return std::make_unique<L<int, 10, 1>>();
			case 1003: return std::make_unique<L<unsigned, 3, 1>>();
			case 1100: return std::make_unique<L<unsigned, 200, 2>>();
			case 2004: return std::make_unique<L<float, 1, 4>>();
			case 2016: return std::make_unique<L<float, 1, 1>>();
			case 2001: return std::make_unique<L<float, 2, 32>>();
			case 3008: return std::make_unique<L<uint8_t, 16, 2>>();
			default: return nullptr;
		}
	switch (c[1] * 10 + c[0]) {
		case 0: return std::make_unique<P<int>>(c);
		case 10: return std::make_unique<P<unsigned>>(c);
		case 20: return std::make_unique<P<float>>(c);
		case 30: return std::make_unique<P<uint8_t>>(c);
		case 2: return std::make_unique<R<int>>(c);
		case 12: return std::make_unique<R<unsigned>>(c);
		case 22: return std::make_unique<R<float>>(c);
		case 32: return std::make_unique<R<uint8_t>>(c);
	}
	return nullptr;
}
