#include "drv.hh"
#include "util/compact_binary_parser.hh"
#include "util/compact_binary_serializer.hh"
#include "util/compact_binary_writer.hh"

struct __attribute__((packed)) B3 {
	uint8_t b[3];
};
template<size_t N>
struct __attribute__((packed)) Bytes {
	uint8_t b[N];
};
struct Heap { // memory of exactly n bytes
	uint8_t *p;
	size_t n;
	Heap(size_t n)
		: p((uint8_t *)exact(n)), n(n)
	{
		memset(p, 238, n);
	}
	~Heap() { drop(p, n); }
	std::span<uint8_t> span() { return {p, n}; }
};

template<class K>
struct Key { // a key in memory of exactly its size
	uint8_t *p = (uint8_t *)malloc(sizeof(K));
	Key(const uint8_t *b) { memcpy(p, b, sizeof(K)); }
	Key(const Key &) = delete;
	~Key() { free(p); }
	auto get() const
	{
		if constexpr (std::is_array_v<K>)
			return (char *)p;
		else {
			K k;
			memcpy(&k, p, sizeof k);
			return k;
		}
	}
};

struct Node {
	int kind; // 0 field 1 raw 2 object
	std::vector<uint8_t> key, data;
	std::vector<Node> sub;
};

template<class K, class S>
void emit(S &s, const std::vector<Node> &nodes)
{
	for (auto &n : nodes) {
		Key<K> k(n.key.data());
		if (n.kind == 2) {
			if constexpr (!requires { s.end_object(); })
				s.object(k.get(), [&](auto &sub) { emit<K>(sub, n.sub); });
		} else if (n.kind == 1) {
			Heap h(n.data.size());
			std::copy(n.data.begin(), n.data.end(), h.p);
			s.raw(k.get(), h.span());
		} else {
			auto put = [&]<class T>(T v) {
				memcpy(&v, n.data.data(), sizeof v);
				s.field(k.get(), v);
			};
			switch (n.data.size()) {
				case 1: put(uint8_t{}); break;
				case 2: put(uint16_t{}); break;
				case 3: put(B3{}); break;
				case 4: put(uint32_t{}); break;
				case 8: put(double{}); break;
				case 16: put(Bytes<16>{}); break;
				case 300: put(Bytes<300>{}); break;
				case 65535: put(Bytes<65535>{}); break;
				case 70000: put(Bytes<70000>{}); break;
				default: harness_error("field size");
			}
		}
	}
}

template<class K, class S, unsigned Depth = 8>
struct O : Obj {
	static constexpr size_t W = sizeof(K);
	Heap buf;
	CompactBinaryWriter<K, S, Depth> w;
	DUP(w)
	Node root{2, {}, {}, {}};
	std::vector<size_t> path;
	O(size_t cap)
		: buf(cap), w(buf.span())
	{}
	Node &here()
	{
		Node *n = &root;
		for (auto i : path)
			n = &n->sub[i];
		return *n;
	}
	static std::span<const uint8_t> window(std::span<const uint8_t> b, const Args &a)
	{
		size_t p = std::min<size_t>(a[0], b.size());
		return b.subspan(p, std::min<size_t>(a[1], b.size() - p));
	}
	void show(std::span<const uint8_t> b, Out &r)
	{
		for (auto x : b)
			r << x;
	}
	void gets(const CompactBinaryParser<K, S> &p, const Key<K> &k, Out &x)
	{
		auto get = [&]<class T>(T) {
			auto v = p.template get<T>(k.get());
			x << v.has_value();
			if (v)
				show({(const uint8_t *)&*v, sizeof(T)}, x);
		};
		get(uint8_t{});
		get(uint16_t{});
		get(B3{});
		get(float{});
		get(uint64_t{});
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		std::vector<uint8_t> kb;
		for (size_t i = 0; i < W && i < a.size(); i++)
			kb.push_back(a[i]);
		std::vector<uint8_t> d;
		if (op == "field" || op == "raw")
			for (int i = 0; i < a[W]; i++)
				d.push_back(a[W + 1] + 37 * i);
		Out x;
		if (op == "field" || op == "raw") {
			Node n{op == "raw", kb, d, {}};
			emit<K>(w, {n});
			here().sub.push_back(n);
		} else if (op == "begin") {
			Key<K> k(kb.data());
			w.begin_object(k.get());
			here().sub.push_back({2, kb, {}, {}});
			path.push_back(here().sub.size() - 1);
		} else if (op == "end") {
			w.end_object();
			if (!path.empty())
				path.pop_back();
		} else if (op == "look")
			show(buf.span(), x);
		else if (op == "at")
			show(window(buf.span(), a), x);
		else if (op == "others_at") {
			using Ser = CompactBinarySerializer<K, S>;
			auto describe = [this](auto &s) { emit<K>(s, root.sub); };
			x << Ser::measure(describe);
			Heap b2(buf.n);
			x << Ser::serialize(b2.span(), describe);
			show(window(b2.span(), a), x);
			std::vector<uint8_t> got;
			x << Ser::stream(describe, [&](std::span<const uint8_t> b) { got.insert(got.end(), b.begin(), b.end()); });
			show(window(got, a), x);
		} else if (op == "lookup_at") {
			Heap full(w.size());
			CompactBinarySerializer<K, S>::serialize(full.span(), [this](auto &s) { emit<K>(s, root.sub); });
			std::span<const uint8_t> n = full.span();
			size_t size = 0;
			Out y;
			for (size_t i = 2; i + W <= a.size(); i += W) {
				std::vector<uint8_t> k1(a.begin() + i, a.begin() + i + W);
				Key<K> k(k1.data());
				CompactBinaryParser<K, S> p{n};
				size = p.get_size(k.get());
				y.v.clear();
				gets(p, k, y);
				n = p.get_node(k.get());
			}
			if (!n.empty() && size != n.size()) // (what an incomplete entry claims is free)
				x << -9;
			x << (n.empty() ? -1 : (long long)(n.data() - full.p)) << n.size();
			show(window(n, a), x);
			x.v.insert(x.v.end(), y.v.begin(), y.v.end());
		}
		else if (op == "others") {
			using Ser = CompactBinarySerializer<K, S>;
			auto describe = [this](auto &s) { emit<K>(s, root.sub); };
			x << Ser::measure(describe);
			Heap b2(buf.n);
			x << Ser::serialize(b2.span(), describe);
			show(b2.span(), x);
			std::vector<uint8_t> got;
			x << Ser::stream(describe, [&](std::span<const uint8_t> b) { got.insert(got.end(), b.begin(), b.end()); });
			show(got, x);
		} else if (op == "lookup") {
			Heap full(w.size());
			CompactBinarySerializer<K, S>::serialize(full.span(), [this](auto &s) { emit<K>(s, root.sub); });
			std::span<const uint8_t> blob = full.span();
			for (size_t i = 0; i + W <= a.size(); i += W) {
				std::vector<uint8_t> k1(a.begin() + i, a.begin() + i + W);
				Key<K> k(k1.data());
				CompactBinaryParser<K, S> p{blob};
				if (i + 2 * W <= a.size()) {
					blob = p.get_node(k.get());
					continue;
				}
				auto n = p.get_node(k.get());
				x << n.size();
				show(n, x);
				gets(p, k, x);
			}
		} else
			harness_error(op);
		r << w.size();
		r.v.insert(r.v.end(), x.v.begin(), x.v.end());
	}
};
std::unique_ptr<Obj> make(const Args &c)
{
	if (c.size() > 4) { // large documents: key type, size bytes, capacity, deepest level
		if (c[0] == 1 && c[1] == 2 && c[3] == 3)
			return std::make_unique<O<uint16_t, uint16_t, 3>>(c[2]);
		if (c[0] == 2 && c[1] == 4 && c[3] == 12)
			return std::make_unique<O<char[4], uint32_t, 12>>(c[2]);
		if (c[0] == 0 && c[1] == 4 && c[3] == 1)
			return std::make_unique<O<uint8_t, uint32_t, 1>>(c[2]);
		if (c[0] == 0 && c[1] == 4 && c[3] == 2)
			return std::make_unique<O<uint8_t, uint32_t, 2>>(c[2]);
		if (c[0] == 6 && c[1] == 2 && c[3] == 8)
			return std::make_unique<O<char[300], uint16_t>>(c[2]);
		if (c[0] == 1 && c[1] == 8 && c[3] == 20)
			return std::make_unique<O<uint16_t, uint64_t, 20>>(c[2]);
		return nullptr;
	}
	switch (c[0] * 10 + c[1]) {
		case 1: return std::make_unique<O<uint8_t, uint8_t, 3>>(c[2]);
		case 2: return std::make_unique<O<uint8_t, uint16_t>>(c[2]);
		case 21: return std::make_unique<O<char[4], uint8_t, 3>>(c[2]);
		case 12: return std::make_unique<O<uint16_t, uint16_t>>(c[2]);
		case 24: return std::make_unique<O<char[4], uint32_t>>(c[2]);
		case 42: return std::make_unique<O<uint32_t, uint16_t>>(c[2]);
		case 18: return std::make_unique<O<uint16_t, uint64_t>>(c[2]);
	}
	return nullptr;
}
