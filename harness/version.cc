#include "drv.hh"
#include "util/version_tools.hh"

using VersionUtil::Version;
struct Text { // a view of exactly its size, not terminated
	char *p;
	size_t n;
	Text(const Args &a, size_t from, size_t n)
		: p((char *)exact(n)), n(n)
	{
		for (size_t i = 0; i < n; i++)
			p[i] = (char)a[from + i];
	}
	~Text() { drop(p, n); }
	std::string_view sv() const { return {p, n}; }
};
static void show(const Version &v, Out &r) { r << v.major << v.minor << v.revision << v.is_normal; }
static void cmp(const Version &x, const Version &y, Out &r)
{
	show(x, r);
	show(y, r);
	r << (x < y) << (x > y) << (x == y) << (x != y) << (x <= y) << (x >= y) << x.is_later(y) << x.can_host_version(y);
}
struct O : Obj {
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "parse") {
			Text t(a, 0, a.size());
			show(Version{t.sv()}, r);
		} else if (op == "cmp") {
			Text x(a, 1, a[0]), y(a, 1 + a[0], a.size() - 1 - a[0]);
			cmp(Version{x.sv()}, Version{y.sv()}, r);
		} else if (op == "set") {
			Version v(a[0], a[1], a[2]);
			v.set_field(a[3], a[4]);
			show(v, r);
		} else if (op == "cmpn")
			cmp(Version(a[0], a[1], a[2]), Version(a[3], a[4], a[5]), r);
		else
			harness_error(op);
	}
};
std::unique_ptr<Obj> make(const Args &) { return std::make_unique<O>(); }
