#include "drv.hh"
#include "util/int_to_str.hh"
#include "util/print.hh"
#include <functional>

static std::string got;
// something else may be printed while a character is being put (from an interrupt, say)
static long long until = 0;
static std::string inner, *into = &got;
static std::function<void()> meanwhile;
static void put(const char c)
{
	into->push_back(c);
	if (into == &got && until && !--until) {
		into = &inner;
		meanwhile();
		into = &got;
	}
}

using Item = std::variant<int32_t, std::string_view, const char *, Hex, const unsigned char *, float>;

static int32_t num(const Args &a, size_t i)
{
	long long v = a[i + 1] * 100000 + a[i + 2];
	return (int32_t)(a[i] ? -v : v);
}
static void print_items(const Args &a)
{
	std::vector<Item> items;
	struct Drop {
		size_t n = 0;
		void operator()(char *p) const { drop(p, n); }
	};
	std::vector<std::unique_ptr<char, Drop>> mem;
	for (size_t i = 0; i < a.size();) {
		if (a[i] == 0) {
			items.push_back(num(a, i + 1));
			i += 4;
		} else if (a[i] == 5) {
			float f = num(a, i + 1);
			items.push_back(a[i + 1] ? f - .5f : f + .5f);
			i += 4;
		} else if (a[i] == 3) {
			uint32_t v = 0;
			for (int k = 1; k <= 8; k++)
				v = v << 4 | a[i + k];
			items.push_back(Hex{v});
			i += 9;
		} else {
			size_t n = a[i + 1], m = n + (a[i] != 1);
			char *p = (char *)exact(m);
			mem.push_back({p, {m}});
			for (size_t k = 0; k < n; k++)
				p[k] = (char)a[i + 2 + k];
			if (a[i] != 1)
				p[n] = 0;
			if (a[i] == 1)
				items.push_back(std::string_view{p, n});
			else if (a[i] == 2)
				items.push_back((const char *)p);
			else
				items.push_back((const unsigned char *)p);
			i += 2 + n;
		}
	}
	for (size_t i = 0; i < items.size();) {
		auto left = items.size() - i;
		if (left >= 3) {
			std::visit([](auto x, auto y, auto z) { print<put>(x, y, z); }, items[i], items[i + 1], items[i + 2]);
			i += 3;
		} else if (left == 2) {
			std::visit([](auto x, auto y) { print<put>(x, y); }, items[i], items[i + 1]);
			i += 2;
		} else {
			std::visit([](auto x) { print<put>(x); }, items[i]);
			i += 1;
		}
	}
}
struct O : Obj {
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "i2s" || op == "chop") {
			size_t n = a[3];
			char *b = (char *)exact(n);
			memset(b, 'x', n);
			bool ok = true;
			if (op == "i2s")
				r << (ok = int_to_str(num(a, 0), {b, n}));
			else
				int_to_str_chop(num(a, 0), {b, n});
			if (op == "chop" && n <= 1)
				r << 0;
			else if (ok) {
				if (!memchr(b, 0, n))
					r << -1;
				else
					r << (const char *)b;
			}
			drop(b, n);
		} else if (op == "numdig")
			r << num_digits((unsigned)(a[0] * 100000 + a[1]));
		else if (op == "print") {
			got.clear();
			print_items(a);
			r << std::string_view{got};
		} else if (op == "printin") { // a[1] numbers of it printed; the rest at its a[0]-th character
			got.clear();
			inner.clear();
			until = a[0];
			auto mid = a.begin() + 2 + a[1];
			meanwhile = [in = Args(mid, a.end())] { print_items(in); };
			print_items(Args(a.begin() + 2, mid));
			until = 0;
			r << std::string_view{got} << std::string_view{inner};
		} else
			harness_error(op);
	}
};
std::unique_ptr<Obj> make(const Args &) { return std::make_unique<O>(); }
