#include "drv.hh"
#include "util/callable.hh"

static std::set<const void *> live;
static long long bad; // any misuse of an object
struct Life {
	Life() { born(); }
	Life(const Life &o)
	{
		if (!live.count(&o))
			bad++;
		born();
	}
	Life &operator=(const Life &o)
	{
		if (!live.count(&o) || !live.count(this))
			bad++;
		return *this;
	}
	~Life()
	{
		if (!live.erase(this))
			bad++;
	}
	void born()
	{
		if ((uintptr_t)this % alignof(void *) || !live.insert(this).second)
			bad++;
	}
	bool ok() const { return live.count(this); }
};
struct Cap { // two words
	Life l;
	int tag;
	uint64_t n = 0;
	Cap(int t)
		: tag(t)
	{}
	int run(int x)
	{
		if (!l.ok() || (uintptr_t)this % alignof(Cap))
			bad++;
		return tag * 1000 + ++n * 10 + x;
	}
};
static_assert(sizeof(Cap) <= 2 * sizeof(void *));

// A capture that has to be copied by its own copy constructor, and need not be destroyed
struct Self {
	uintptr_t self;
	int tag;
	int n = 0;
	Self(int t)
		: self((uintptr_t)this)
		, tag(t)
	{}
	Self(const Self &o)
		: self((uintptr_t)this)
		, tag(o.self == (uintptr_t)&o ? o.tag : -7)
		, n(o.n)
	{}
	Self &operator=(const Self &) = delete;
	int run(int x) { return self == (uintptr_t)this ? tag * 1000 + ++n * 10 + x : -6; }
};
static_assert(sizeof(Self) <= 2 * sizeof(void *));

static int g_out;
static int g_in;

template<int>
struct Sig;
template<>
struct Sig<0> {
	using F = Function<int(int)>;
	static int fp(int x) { return 70000 + x; }
	static auto cap(int t)
	{
		return [c = Cap(t)](int x) mutable { return c.run(x); };
	}
	static auto plain(int t)
	{
		return [t, n = 0](int x) mutable { return t * 1000 + ++n * 10 + x; };
	}
	static auto self(int t)
	{
		return [c = Self(t)](int x) mutable { return c.run(x); };
	}
	static int call(F &f, int x) { return x % 2 ? f(x) : f.call(x); }
};
template<>
struct Sig<1> {
	using F = Callback;
	static void fp() { g_out = 70000 + g_in; }
	static auto cap(int t)
	{
		return [c = Cap(t)]() mutable { g_out = c.run(g_in); };
	}
	static auto plain(int t)
	{
		return [t, n = 0]() mutable { g_out = t * 1000 + ++n * 10 + g_in; };
	}
	static auto self(int t)
	{
		return [c = Self(t)]() mutable { g_out = c.run(g_in); };
	}
	static int call(F &f, int x)
	{
		g_in = x;
		g_out = -1;
		f();
		return g_out;
	}
};
template<>
struct Sig<2> : Sig<0> {
	using F = FunctionSized<48, int(int)>;
	static auto cap(int t)
	{
		return [c = Cap(t), pad = std::array<uint64_t, 4>{1, 2, 3, (uint64_t)t}](int x) mutable { return pad[3] == (uint64_t)c.tag && pad[0] == 1 ? c.run(x) : -5; };
	}
	static int call(F &f, int x) { return x % 2 ? f(x) : f.call(x); }
};
template<>
struct Sig<3> {
	using F = FunctionSized<24, void(std::unique_ptr<int>, int &)>;
	static void fp(std::unique_ptr<int> p, int &o) { o = 70000 + *p; }
	static auto cap(int t)
	{
		return [c = Cap(t)](std::unique_ptr<int> p, int &o) mutable { o = c.run(*p); };
	}
	static auto plain(int t)
	{
		return [t, n = 0](std::unique_ptr<int> p, int &o) mutable { o = t * 1000 + ++n * 10 + *p; };
	}
	static auto self(int t)
	{
		return [c = Self(t)](std::unique_ptr<int> p, int &o) mutable { o = c.run(*p); };
	}
	static int call(F &f, int x)
	{
		int o = -1;
		f(std::make_unique<int>(x), o);
		return o;
	}
};

// an argument that can only be moved comes back as the result
template<>
struct Sig<4> {
	using P = std::unique_ptr<int>;
	using F = Function<P(P, int)>;
	static P answer(P p, int v)
	{
		*p = v;
		return p;
	}
	static P fp(P p, int x) { return answer(std::move(p), 70000 + x); }
	static auto cap(int t)
	{
		return [c = Cap(t)](P p, int x) mutable { return answer(std::move(p), c.run(x)); };
	}
	static auto plain(int t)
	{
		return [t, n = 0](P p, int x) mutable { return answer(std::move(p), t * 1000 + ++n * 10 + x); };
	}
	static auto self(int t)
	{
		return [c = Self(t)](P p, int x) mutable { return answer(std::move(p), c.run(x)); };
	}
	static int call(F &f, int x)
	{
		auto p = std::make_unique<int>(-1);
		auto raw = p.get();
		auto q = x % 2 ? f(std::move(p), x) : f.call(std::move(p), x);
		return q.get() == raw && !p ? *q : -4;
	}
};

template<size_t N>
struct Sized {
	std::array<char, N> b;
	template<class... A>
	int operator()(A &&...) const
	{
		return 0;
	}
};
template<unsigned B, size_t... N>
static void fits(Out &r, std::index_sequence<N...>)
{
	(r << ... << (long long)std::is_constructible_v<FunctionSized<B, int(int)>, Sized<N + 1>>);
}

template<int K>
struct O : Obj {
	using S = Sig<K>;
	using F = typename S::F;
	std::array<F *, 3> f;
	O()
	{
		live.clear();
		bad = 0;
		for (auto &p : f)
			p = new F;
	}
	~O()
	{
		for (auto p : f)
			delete p;
		if (bad || !live.empty()) {
			fprintf(stderr, "captured objects left or misused\n");
			_exit(1);
		}
	}
	// a new object in the same place
	template<class... A>
	void renew(int i, A &&...a)
	{
		f[i]->~F();
		memset((void *)f[i], 0xAB, sizeof(F));
		new (f[i]) F(std::forward<A>(a)...);
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		int i = a[0];
		if (op == "store") {
			if (a[1] == 1)
				*f[i] = S::cap(a[2]);
			else if (a[1] == 2)
				*f[i] = S::plain(a[2]);
			else if (a[1] == 4)
				*f[i] = S::self(a[2]);
			else
				*f[i] = &S::fp;
		} else if (op == "make") {
			if (a[1] == 1)
				renew(i, S::cap(a[2]));
			else if (a[1] == 2)
				renew(i, S::plain(a[2]));
			else if (a[1] == 4)
				renew(i, S::self(a[2]));
			else
				renew(i, &S::fp);
		} else if (op == "assign")
			*f[i] = *f[a[1]];
		else if (op == "copy") {
			if (i != a[1])
				renew(i, std::as_const(*f[a[1]]));
		} else if (op == "clear")
			*f[i] = F{};
		else if (op == "call")
			r << S::call(*f[i], a[1]);
		else if (op == "fits") {
			// which of the callables of 1 to 40 bytes does a buffer of that size take?
			constexpr auto all = std::make_index_sequence<40>{};
			a[0] == 8 ? fits<8>(r, all) : a[0] == 16 ? fits<16>(r, all) : a[0] == 20 ? fits<20>(r, all) : fits<32>(r, all);
		} else
			harness_error(op);
		for (auto p : f)
			r << (bool)*p;
		r << (bad ? -100 : (long long)live.size());
	}
};
std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0]) {
		case 0: return std::make_unique<O<0>>();
		case 1: return std::make_unique<O<1>>();
		case 2: return std::make_unique<O<2>>();
		case 3: return std::make_unique<O<3>>();
		case 4: return std::make_unique<O<4>>();
	}
	return nullptr;
}
