#include "drv.hh"
#include "util/static_string.hh"

// a source text in a block of exactly its size, so that reading past it is seen
struct Cz {
	char *p;
	Cz(const Args &a)
		: p((char *)malloc(a.size() + 1))
	{
		for (size_t i = 0; i < a.size(); i++)
			p[i] = (char)a[i];
		p[a.size()] = 0;
	}
	~Cz() { free(p); }
};
struct Sv {
	char *p;
	size_t n;
	Sv(const Args &a)
		: p((char *)malloc(a.size() ? a.size() : 1)), n(a.size())
	{
		for (size_t i = 0; i < n; i++)
			p[i] = (char)a[i];
	}
	operator std::string_view() const { return {p, n}; }
	~Sv() { free(p); }
};

template<size_t N, size_t M>
struct O : Obj {
	// exact-size blocks so that a write outside the object is seen
	StaticString<N> *a = new (malloc(sizeof(StaticString<N>))) StaticString<N>;
	StaticString<M> *b = new (malloc(sizeof(StaticString<M>))) StaticString<M>;
	DUP(*a, *b)
	~O()
	{
		free(a);
		free(b);
	}
	template<class S>
	static void obs(const S &s, Out &r)
	{
		size_t cap = S::capacity;
		auto t = s.c_str();
		size_t n = 0;
		while (n <= cap && t[n])
			n++;
		if (n > cap)
			n = 99999; // not terminated
		r << n;
		for (size_t i = 0; i < n && n < 99999; i++)
			r << (unsigned char)t[i];
		r << s.length() << s.size() << s.available() << cap;
		std::string it;
		for (auto c : s)
			it.push_back(c);
		r << it << std::string_view{s};
#ifdef CPPUTIL_STATIC_STRING_USE_STD_STRING
		std::string str = s;
		auto &m = const_cast<S &>(s);
		std::string str2 = m, it2;
		for (auto &c : m)
			it2.push_back(c);
		S made{std::string{str}};
		if (str != it || str2 != it || it2 != it || std::string_view{made.c_str()} != it)
			r << -1;
#endif
		if (s.data() != s.c_str() || (const char *)s != s.c_str())
			r << -1;
	}
	void op(const std::string &op, const Args &x, Out &r) override
	{
		if (op == "copy_c") {
			Cz z(x);
			a->copy((const char *)z.p);
		} else if (op == "vcopy_c") {
			Cz z(x);
			const_cast<volatile StaticString<N> *>(a)->copy((const char *)z.p);
		} else if (op == "copy_sv") {
			Sv z(x);
			a->copy((std::string_view)z);
		} else if (op == "ctor_c") {
			Cz z(x);
			new (a) StaticString<N>((const char *)z.p);
		} else if (op == "ctor_sv") {
			Sv z(x);
			new (a) StaticString<N>((std::string_view)z);
		} else if (op == "own_c") {
			a->copy(a->c_str() + x[0]);
		} else if (op == "own_sv") {
			a->copy(std::string_view{*a}.substr(x[0]));
		} else if (op == "bcopy_c") {
			Cz z(x);
			b->copy((const char *)z.p);
		} else if (op == "bcopy_sv") {
			Sv z(x);
			b->copy((std::string_view)z);
		} else if (op == "clear")
			a->clear();
		else if (op == "copy_b")
			a->copy(*b);
		else if (op == "vcopy_b")
			const_cast<volatile StaticString<N> *>(a)->copy(*b);
		else if (op == "vcopy_vb")
			const_cast<volatile StaticString<N> *>(a)->copy(*const_cast<volatile StaticString<M> *>(b));
		else if (op == "bcopy_a")
			b->copy(*a);
		else if (op == "is_equal") {
			Cz z(x);
			r << a->is_equal(z.p);
		} else
			harness_error(op);
		obs(*a, r);
		obs(*b, r);
		r << (*a == *b) << (*b == *a);
	}
};

std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0] == 300 ? 9999 : c[0] == 70000 ? 9998 : c[0] * 100 + c[1]) {
		case 9999: return std::make_unique<O<300, 260>>();
		case 9998: return std::make_unique<O<70000, 66000>>();
		case 1: return std::make_unique<O<0, 1>>();
		case 103: return std::make_unique<O<1, 3>>();
		case 302: return std::make_unique<O<3, 2>>();
		case 200: return std::make_unique<O<2, 0>>();
		case 303: return std::make_unique<O<3, 3>>();
		case 104: return std::make_unique<O<1, 4>>();
		case 402: return std::make_unique<O<4, 2>>();
		case 820: return std::make_unique<O<8, 20>>();
		case 2008: return std::make_unique<O<20, 8>>();
		case 3131: return std::make_unique<O<31, 31>>();
	}
	return nullptr;
}
