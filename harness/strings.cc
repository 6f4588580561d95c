#include "drv.hh"
#include "util/contains_word.hh"
#include "util/string_compare.hh"
#include "util/string_util.hh"

struct O : Obj {
	// the k-th text, in memory of exactly its size
	std::vector<std::pair<char *, size_t>> mem;
	std::string_view text(const Args &a, int k)
	{
		size_t p = 0;
		while (k--)
			p += 1 + a[p];
		size_t n = a[p];
		mem.emplace_back((char *)exact(n), n);
		for (size_t i = 0; i < n; i++)
			mem.back().first[i] = (char)a[p + 1 + i];
		return {mem.back().first, n};
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "replace") {
			ReplaceString s{std::string(text(a, 0))};
			auto &same = s.replace_all(std::string(text(a, 1)), std::string(text(a, 2)));
			r << same.str;
			if (&same != &s)
				r << -1;
		} else if (op == "replace_own") { // its own text is what is looked for, or put in
			ReplaceString s{std::string(text(a, 0))}, t{std::string(text(a, 0))};
			r << s.replace_all(std::string(text(a, 1)), s.str).str << t.replace_all(t.str, std::string(text(a, 1))).str;
		} else if (op == "replaces") { // one after the other
			ReplaceString s{std::string(text(a, 0))};
			r << s.replace_all(std::string(text(a, 1)), std::string(text(a, 2))).replace_all(std::string(text(a, 3)), std::string(text(a, 4))).str;
		} else if (op == "tokens") {
			auto d = std::string(text(a, 1));
			std::vector<std::string> t; // tokens are added to what is there
			for (int i = 0; i < a.back(); i++)
				t.push_back("zz");
			if (d == ",")
				tokenize_string(text(a, 0), t);
			else
				tokenize_string(text(a, 0), t, d);
			r << t.size();
			for (auto &x : t)
				r << x;
		} else if (op == "word")
			r << contains_word(std::string(text(a, 0)), std::string(text(a, 1)));
		else if (op == "cmp") {
			auto x = text(a, 0), y = text(a, 1);
			r << less_ci(x, y) << less_ci(y, x) << equal_ci(x, y) << equal_ci(y, x);
		} else
			harness_error(op);
		for (auto [p, n] : mem)
			drop(p, n);
		mem.clear();
	}
};
std::unique_ptr<Obj> make(const Args &) { return std::make_unique<O>(); }
