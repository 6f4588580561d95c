#include "drv.hh"
#include "util/compact_binary_parser.hh"

struct __attribute__((packed)) B3 {
	uint8_t b[3];
};
struct __attribute__((packed)) B300 {
	uint8_t b[300];
};
template<class P, class K>
void query(const P &p, K &&key, const uint8_t *base, Out &r, bool more)
{
	r << p.get_size(key);
	auto n = p.get_node(key);
	r << (n.empty() ? -1 : (long long)(n.data() - base)) << n.size();
	for (auto b : n)
		r << b;
	auto get = [&]<class T>(T) {
		auto v = p.template get<T>(key);
		r << v.has_value();
		if (v) {
			uint8_t b[sizeof(T)];
			memcpy(b, &*v, sizeof(T));
			for (auto x : b)
				r << x;
		}
	};
	get(uint8_t{});
	get(uint16_t{});
	get(B3{});
	get(float{});
	get(uint64_t{});
	if (more)
		get(B300{});
}

template<class K, class S>
struct O : Obj {
	void op(const std::string &op, const Args &a, Out &r) override
	{
		constexpr size_t W = sizeof(K);
		const bool more = op == "qbig";
		std::vector<uint8_t> blob;
		if (more) { // the other key, the size of its entry and its bytes
			for (size_t i = 0; i < W; i++)
				blob.push_back(a[W + i]);
			size_t m = a[2 * W];
			for (size_t i = 0; i < sizeof(S); i++)
				blob.push_back(i < 8 ? m >> (8 * i) : 0);
			for (size_t i = 0; i < m; i++)
				blob.push_back((i * 37) % 251);
		}
		for (size_t i = more ? 2 * W + 1 : W; i < a.size(); i++)
			blob.push_back(a[i]);
		size_t n = blob.size();
		uint8_t *p = (uint8_t *)exact(n);
		std::copy(blob.begin(), blob.end(), p);
		CompactBinaryParser<K, S> parser{std::span<const uint8_t>{p, n}};
		if constexpr (std::is_array_v<K>) {
			char *k = (char *)malloc(W);
			for (size_t i = 0; i < W; i++)
				k[i] = a[i];
			query(parser, k, p, r, more);
			free(k);
		} else {
			K k = 0;
			for (size_t i = 0; i < W; i++)
				k |= (K)a[i] << (8 * i);
			query(parser, k, p, r, more);
		}
		drop(p, n);
	}
};
std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0] * 10 + (c[1] < 0 ? 9 : c[1])) {
		case 1: return std::make_unique<O<uint8_t, uint8_t>>();
		case 9: return std::make_unique<O<uint8_t, int8_t>>();
		case 12: return std::make_unique<O<uint16_t, uint16_t>>();
		case 31: return std::make_unique<O<char[3], uint8_t>>();
		case 22: return std::make_unique<O<char[4], uint16_t>>();
		case 8: return std::make_unique<O<uint8_t, uint64_t>>();
		case 42: return std::make_unique<O<uint32_t, uint16_t>>();
		case 62: return std::make_unique<O<char[300], uint16_t>>();
		case 14: return std::make_unique<O<uint16_t, uint32_t>>();
	}
	return nullptr;
}
