#include "drv.hh"
#include "util/countzip.hh"
#include "util/zip.hh"

// the ranges: 0 vector<int>, 1 deque<int>, 2 array<int, 3>, 3 vector<unsigned char>, 4 a view of 0
struct View {
	using iterator = std::vector<int>::iterator;
	using const_iterator = std::vector<int>::const_iterator;
	std::vector<int> *v;
	iterator begin() { return v->begin(); }
	iterator end() { return v->end(); }
	const_iterator begin() const { return v->cbegin(); }
	const_iterator end() const { return v->cend(); }
	size_t size() const { return v->size(); }
	int &operator[](size_t i) { return (*v)[i]; }
};

struct O : Obj {
	std::vector<int> c0;
	std::deque<int> c1;
	std::array<int, 3> c2{};
	std::vector<unsigned char> c3;
	View c4{&c0};

	template<size_t I>
	auto &get()
	{
		if constexpr (I == 0)
			return c0;
		else if constexpr (I == 1)
			return c1;
		else if constexpr (I == 2)
			return c2;
		else if constexpr (I == 3)
			return c3;
		else
			return c4;
	}

	// 0 mutable, 1 const, 2 moved-in copy
	template<size_t I, int Mode>
	decltype(auto) pass()
	{
		if constexpr (Mode == 1)
			return std::as_const(get<I>());
		else if constexpr (Mode == 2)
			return std::decay_t<decltype(get<I>())>(get<I>());
		else
			return get<I>();
	}

	template<int Mode, class C, class X>
	static void elem(Out &r, C &c, X &&x, size_t pos, bool write)
	{
		static_assert(std::is_lvalue_reference_v<X>);
		r << (long long)x;
		// the very element of the original, unless the range was passed as a temporary
		r << (Mode == 2 || (pos < c.size() && &c[pos] == &x));
		if constexpr (Mode == 0) {
			if (write)
				x = x + 1;
		}
	}

	template<int Variant, int Mode, size_t... I>
	void walk(Out &r, bool write, std::index_sequence<I...>)
	{
		auto z = [&] {
			if constexpr (Variant == 0)
				return zip(pass<I, Mode>()...);
			else if constexpr (Variant == 1)
				return countzip(pass<I, Mode>()...);
			else
				return enumerate(pass<I, Mode>()...);
		};
		size_t pos = 0;
		auto at = r.v.size();
		r << 0;
		for (auto &&t : z()) {
			if constexpr (Variant != 0)
				r << std::get<0>(t);
			[&]<size_t... K>(std::index_sequence<K...>) {
				(elem<Mode>(r, get<I>(), std::get<K + (Variant != 0)>(t), pos, write), ...);
			}(std::make_index_sequence<sizeof...(I)>{});
			if (++pos > 1000)
				break;
		}
		r.v[at] = pos;
		// the same positions through the iterator itself
		if constexpr (Mode == 0) {
			auto zz = z();
			auto it = zz.begin();
			auto e = zz.end();
			size_t n = 0;
			for (; it != e && n < 1000; n++) {
				auto old = n % 2 ? it++ : it;
				if (n % 2 == 0)
					++it;
				auto t = *old;
				if constexpr (Variant != 0)
					r << std::get<0>(t);
				[&]<size_t... K>(std::index_sequence<K...>) {
					(elem<Mode>(r, get<I>(), std::get<K + (Variant != 0)>(t), n, false), ...);
				}(std::make_index_sequence<sizeof...(I)>{});
			}
			r << n << (it == e);
		}
	}
	template<size_t... I>
	void go(int variant, int mode, bool write, Out &r)
	{
		std::index_sequence<I...> s;
		switch (variant * 10 + mode) {
			case 0: return walk<0, 0>(r, write, s);
			case 1: return walk<0, 1>(r, write, s);
			case 2: return walk<0, 2>(r, write, s);
			case 10: return walk<1, 0>(r, write, s);
			case 11: return walk<1, 1>(r, write, s);
			case 12: return walk<1, 2>(r, write, s);
			case 20: return walk<2, 0>(r, write, s);
			case 21: return walk<2, 1>(r, write, s);
			case 22: return walk<2, 2>(r, write, s);
		}
		harness_error("mode");
	}
	// ranges of any length: how many positions, how many of them with a wrong number or element; then a window of positions
	template<class Z>
	void run_long(Z &&z, const std::vector<int> &p, const std::deque<int> &q, long from, long cnt, Out &r)
	{
		long long pos = 0, wrong = 0;
		std::vector<long long> win;
		for (auto &&t : z) {
			auto look = [&](auto no, auto &x, auto &y) {
				if (pos >= (long long)std::min(p.size(), q.size()) || (long long)no != pos || &x != &p[pos] || &y != &q[pos])
					wrong++;
				if (pos >= from && pos < from + cnt)
					win.insert(win.end(), {(long long)no, x, y});
			};
			if constexpr (std::tuple_size_v<std::decay_t<decltype(t)>> == 3)
				look(std::get<0>(t), std::get<1>(t), std::get<2>(t));
			else
				look(pos, std::get<0>(t), std::get<1>(t));
			if (++pos > 1000000)
				break;
		}
		r << pos << wrong;
		for (auto x : win)
			r << x;
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "long") { // variant, lengths, window
			std::vector<int> p(a[1]);
			std::deque<int> q(a[2]);
			for (size_t i = 0; i < p.size(); i++)
				p[i] = (7 * i + 1) % 1000;
			for (size_t i = 0; i < q.size(); i++)
				q[i] = (11 * i + 2) % 1000;
			if (a[0] == 0)
				run_long(zip(p, q), p, q, a[3], a[4], r);
			else if (a[0] == 1)
				run_long(countzip(p, q), p, q, a[3], a[4], r);
			else
				run_long(enumerate(p, q), p, q, a[3], a[4], r);
			return;
		}
		if (op == "set") {
			auto fill = [&](auto &c) {
				c.resize(a.size() - 1);
				std::copy(a.begin() + 1, a.end(), c.begin());
				c.shrink_to_fit();
			};
			if (a[0] == 0)
				fill(c0);
			else if (a[0] == 1)
				fill(c1);
			else if (a[0] == 2)
				std::copy(a.begin() + 1, a.begin() + 4, c2.begin());
			else
				fill(c3);
		} else if (op == "get") {
			for (auto x : c0)
				r << x;
			for (auto x : c1)
				r << x;
			for (auto x : c2)
				r << x;
			for (auto x : c3)
				r << (int)x;
		} else if (op == "walk") {
			// variant, mode, write, ranges...
			long long k = 0;
			for (size_t i = 3; i < a.size(); i++)
				k = k * 10 + a[i] + 1;
			int v = a[0], m = a[1];
			bool w = a[2];
			switch (k) {
				case 1: return go<0>(v, m, w, r);
				case 2: return go<1>(v, m, w, r);
				case 3: return go<2>(v, m, w, r);
				case 5: return go<4>(v, m, w, r);
				case 12: return go<0, 1>(v, m, w, r);
				case 21: return go<1, 0>(v, m, w, r);
				case 13: return go<0, 2>(v, m, w, r);
				case 31: return go<2, 0>(v, m, w, r);
				case 14: return go<0, 3>(v, m, w, r);
				case 42: return go<3, 1>(v, m, w, r);
				case 11: return go<0, 0>(v, m, w, r);
				case 52: return go<4, 1>(v, m, w, r);
				case 123: return go<0, 1, 2>(v, m, w, r);
				case 324: return go<2, 1, 3>(v, m, w, r);
				case 412: return go<3, 0, 1>(v, m, w, r);
				case 4123: return go<3, 0, 1, 2>(v, m, w, r);
			}
			harness_error("ranges");
		} else
			harness_error(op);
	}
};
std::unique_ptr<Obj> make(const Args &) { return std::make_unique<O>(); }
