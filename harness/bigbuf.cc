#include "drv.hh"
#include "util/big_buffer.hh"

// an element that knows how many of its kind are alive, and which
struct Elem {
	static inline std::set<const Elem *> &live = *new std::set<const Elem *>; // (outlives every object)
	static inline bool bad = false;
	long long v;
	Elem(long long x = 0)
		: v{x}
	{
		bad |= !live.insert(this).second;
	}
	Elem(const Elem &o)
		: v{o.v}
	{
		bad |= !live.count(&o) || !live.insert(this).second;
	}
	Elem &operator=(const Elem &o)
	{
		bad |= !live.count(&o) || !live.count(this);
		v = o.v;
		return *this;
	}
	~Elem() { bad |= !live.erase(this); }
};
struct Pad {
	short a = 0;
	long long v = 0;
	Pad() = default;
	Pad(long long x)
		: a{1}
		, v{x}
	{
	}
};
static long long val(const Elem &e) { return e.v; }
static long long val(const Pad &e) { return e.v; }
static long long val(double e) { return (long long)e; }
static long long val(char e) { return e; }

template<class E, size_t N>
struct O : Obj {
	using Arr = std::array<E, N>;
	using B = BigBuffer<Arr>;
	static_assert(std::is_same_v<typename B::ElementType, E>);
	std::unique_ptr<B> b[3];
	size_t own = 0; // elements alive that calls of this driver made
	~O()
	{
		own -= Elem::live.size();
		for (auto &x : b)
			x.reset();
		own += Elem::live.size();
		if (Elem::bad || own) {
			fprintf(stderr, "elements left alive or destroyed twice\n");
			abort();
		}
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		own -= Elem::live.size();
		if (op == "mk") {
			b[a[0]] = std::make_unique<B>();
			for (size_t i = 0; !std::is_same_v<E, Elem> && i < N; i++) // (plain types start as they may)
				(*b[a[0]])[i] = E(0);
		} else if (op == "del")
			b[a[0]].reset();
		else if (op == "set")
			(*b[a[0]])[(size_t)a[1]] = E(a[2]);
		else if (op == "poke") // by reference
			b[a[0]]->get().at((size_t)a[1]) = E(a[2]);
		else if (op == "get")
			r << val((*b[a[0]])[(size_t)a[1]]) << val(std::as_const(*b[a[0]])[(size_t)a[1]]) << val(b[a[0]]->get().at((size_t)a[1])) << val((*b[a[0]]->data)[(size_t)a[1]]);
		else if (op == "cpy") {
			if constexpr (std::is_copy_constructible_v<B>) {
				b[a[0]] = std::make_unique<B>(std::as_const(*b[a[1]]));
				r << 1;
			} else
				r << 0;
		} else if (op == "asg") {
			if constexpr (std::is_copy_assignable_v<B>) {
				*b[a[0]] = std::as_const(*b[a[1]]);
				r << 1;
			} else
				r << 0;
		} else
			harness_error(op);
		own += Elem::live.size();
		if (std::is_same_v<E, Elem>)
			r << own << Elem::bad;
		else
			r << 0 << 0;
	}
};
std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0]) {
		case 0: return std::make_unique<O<Elem, 4>>();
		case 1: return std::make_unique<O<Elem, 300>>();
		case 2: return std::make_unique<O<double, 70000>>();
		case 3: return std::make_unique<O<Pad, 1000>>();
		case 4: return std::make_unique<O<char, 5>>();
		case 5: return std::make_unique<O<Elem, 1>>();
	}
	return nullptr;
}
