// Driver protocol: one call per input line "op a1 a2 ...", one result line "= r1 r2 ..." per call.
// "new c1 c2 ..." (re)constructs the object under test.
#pragma once
#include <bits/stdc++.h>
#include <signal.h>
#include <unistd.h>

using Args = std::vector<long long>;

// a negative argument stands for a huge size: -k for 2^32 + k if k is odd, else 2^64 - k
#define HUGE_SIZE(x) ((x) >= 0 ? (size_t)(x) : (x) % 2 ? (size_t(1) << 32) + size_t(-(x)) : (size_t)(x))

// memory of exactly n bytes, also when n is 0
inline void *exact(size_t n) { return n ? malloc(n) : (char *)malloc(16) + 16; }
inline void drop(void *p, size_t n) { free(n ? p : (char *)p - 16); }

struct Out {
	std::vector<long long> v;
	template<class T>
	Out &operator<<(const T &x)
	{
		if constexpr (std::is_convertible_v<T, std::string_view>) {
			std::string_view s{x};
			v.push_back((long long)s.size());
			for (unsigned char c : s)
				v.push_back(c);
		} else {
			long double y = (long double)x;
			if (!(y <= 2147483647.0L))
				v.push_back(2147483647);
			else if (!(y >= -2147483647.0L))
				v.push_back(-2147483647);
			else
				v.push_back((long long)x);
		}
		return *this;
	}
	// an exact 64-bit value as four 16-bit digits, least significant first
	void wide(unsigned long long x)
	{
		for (int i = 0; i < 4; i++, x >>= 16)
			v.push_back((long long)(x & 0xffff));
	}
};

[[noreturn]] inline void harness_error(const std::string &what)
{
	fprintf(stderr, "HARNESS-ERROR %s\n", what.c_str());
	_exit(77);
}

struct Obj {
	virtual ~Obj() = default;
	// replace the object under test by a copy of itself; see redo()
	virtual void dup(int) {}
	std::vector<std::shared_ptr<void>> other;
	virtual void op(const std::string &op, const Args &a, Out &r) = 0;
};

// Replace p's object by a copy: 0 copy-constructed, 1 assigned onto an object with another history,
// 2 move-constructed, 3 move-assigned, 4 assigned to itself.  What a class does not offer is not done.
template<class T>
void redo_one(int how, std::unique_ptr<T> &p, std::shared_ptr<void> &other)
{
	auto fresh = [](auto &&x) {
		void *m = ::operator new(sizeof(T), std::align_val_t(alignof(T)));
		memset(m, 0xA5, sizeof(T));
		return std::shared_ptr<T>(new (m) T(std::forward<decltype(x)>(x)), [](T *q) { q->~T(); ::operator delete((void *)q, std::align_val_t(alignof(T))); });
	};
	// (the result must be owned by a plain unique_ptr)
	auto plain = [](auto &&x) {
		void *m = ::operator new(sizeof(T));
		memset(m, 0xA5, sizeof(T));
		return std::unique_ptr<T>(new (m) T(std::forward<decltype(x)>(x)));
	};
	static_assert(alignof(T) <= __STDCPP_DEFAULT_NEW_ALIGNMENT__);
	if (how == 0 || (how == 1 && !other)) {
		if constexpr (std::is_copy_constructible_v<T>) {
			if (how == 1)
				other = fresh(std::as_const(*p));
			p = plain(std::as_const(*p));
		}
	} else if (how == 1) {
		if constexpr (std::is_copy_assignable_v<T> && std::is_copy_constructible_v<T>) {
			auto q = plain(std::as_const(*static_cast<T *>(other.get())));
			other = fresh(std::as_const(*p));
			*q = std::as_const(*p);
			p = std::move(q);
		}
	} else if (how == 2) {
		if constexpr (std::is_move_constructible_v<T>)
			p = plain(std::move(*p));
	} else if (how == 3 && other) {
		if constexpr (std::is_move_assignable_v<T> && std::is_copy_constructible_v<T>) {
			auto q = plain(std::as_const(*static_cast<T *>(other.get())));
			other = fresh(std::as_const(*p));
			*q = std::move(*p);
			p = std::move(q);
		}
	} else if (how == 4) {
		if constexpr (std::is_copy_assignable_v<T>)
			*p = std::as_const(*p);
	}
}
template<class T>
void redo_one(int how, std::optional<T> &x, std::shared_ptr<void> &other)
{
	if constexpr (std::is_copy_constructible_v<T>) {
		if (!x)
			return;
		auto p = std::make_unique<T>(std::as_const(*x));
		redo_one(how, p, other);
		x.reset();
		x.emplace(std::as_const(*p));
	}
}
template<class T>
void redo_one(int how, T &x, std::shared_ptr<void> &other)
{
	if constexpr (std::is_copy_constructible_v<T>) {
		if (how == 4) {
			if constexpr (std::is_copy_assignable_v<T>)
				x = std::as_const(x);
			return;
		}
		auto p = std::make_unique<T>(std::as_const(x));
		redo_one(how, p, other);
		x.~T();
		memset((void *)&x, 0x5A, sizeof x);
		new (&x) T(std::as_const(*p));
	}
}
template<class... X>
void redo(Obj &o, int how, X &...x)
{
	o.other.resize(sizeof...(X));
	size_t i = 0;
	(redo_one(how, x, o.other[i++]), ...);
}
#define DUP(...) \
	void dup(int how) override { redo(*this, how, __VA_ARGS__); }

// provided by each driver
std::unique_ptr<Obj> make(const Args &cfg);

inline std::string str_of(const Args &a, size_t from = 0, size_t n = size_t(-1))
{
	std::string s;
	for (size_t i = from; i < a.size() && i - from < n; i++)
		s.push_back((char)a[i]);
	return s;
}

int main()
{
	signal(SIGALRM, SIG_DFL);
	std::unique_ptr<Obj> obj;
	// VT_TWIN: while a scenario runs on one object, the scenario before it runs once more on another one, call by call:
	// the two must not have anything to do with each other
	const bool twins = getenv("VT_TWIN") != nullptr;
	struct Call {
		std::string op;
		Args a;
	};
	std::unique_ptr<Obj> twin;
	std::vector<Call> last, now;
	size_t at = 0;
	auto step_twin = [&] {
		if (at >= last.size())
			return;
		auto &[op, a] = last[at++];
		Out dropped;
		alarm(15);
		if (op == "new")
			twin = make(a);
		else if (op == "dup")
			twin->dup((int)a[0]);
		else
			twin->op(op, a, dropped);
		alarm(0);
	};
	std::string line;
	while (std::getline(std::cin, line)) {
		if (line.empty())
			continue;
		const char *p = line.c_str();
		const char *e = strchr(p, ' ');
		std::string op = e ? std::string(p, e - p) : line;
		Args a;
		while (e && *e) {
			char *n;
			a.push_back(strtoll(e, &n, 10));
			if (n == e)
				break;
			e = n;
		}
		Out r;
		alarm(15);
		if (op == "new") {
			obj.reset();
			obj = make(a);
			if (!obj)
				harness_error("no such configuration: " + line);
			if (twins) {
				twin.reset();
				last = std::move(now);
				now.clear();
				at = 0;
			}
		} else {
			if (!obj)
				harness_error("no object");
			if (op == "dup")
				obj->dup((int)a[0]);
			else
				obj->op(op, a, r);
		}
		alarm(0);
		if (twins) {
			step_twin();
			now.push_back({op, a});
		}
		fputc('=', stdout);
		for (auto x : r.v)
			fprintf(stdout, " %lld", x);
		fputc('\n', stdout);
		fflush(stdout);
	}
	alarm(15);
	twin.reset();
	obj.reset();
	return 0;
}
