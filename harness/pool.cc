#include "drv.hh"
#include "util/pool.hh"

// Element types: a large one, a byte, one that owns heap storage, one without any state
struct Large {
	long long v = 0;
	char pad[20]{};
};
struct Byte {
	uint8_t v = 0;
};
struct Owner {
	struct Held {
		std::unique_ptr<long long> p = std::make_unique<long long>(0);
		Held() = default;
		Held(Held &&) = default;
		Held(const Held &o) { *this = o; }
		Held &operator=(Held &&) = default;
		Held &operator=(const Held &o)
		{
			p = o.p ? std::make_unique<long long>(*o.p) : nullptr;
			return *this;
		}
		Held &operator=(long long x)
		{
			p = std::make_unique<long long>(x);
			return *this;
		}
		operator long long() const { return p ? *p : -7776; }
	} v;
};
struct Empty {
	struct V { // what the owner of the slot would have stored, beside the pool
		V &operator=(long long) { return *this; }
		operator long long() const { return 0; }
	};
	static inline V v;
};
static_assert(std::is_empty_v<Empty>);

template<class Item, size_t N>
struct O : Obj {
	cpputil::Pool<Item, N> pool;
	std::map<int, long long> stored;
	void put(int i, long long x)
	{
		if constexpr (std::is_empty_v<Item>)
			stored[i] = x;
		else
			slots.at(i)->v = x;
	}
	long long get(int i) { return std::is_empty_v<Item> ? stored[i] : (long long)slots[i]->v; }
	std::vector<Item *> slots;	 // every pointer ever handed out, in order of first appearance
	std::map<int, bool> live;
	int id(Item *p)
	{
		for (size_t i = 0; i < slots.size(); i++)
			if (slots[i] == p)
				return i;
		for (auto *q : slots)
			if ((char *)p < (char *)(q + 1) && (char *)q < (char *)(p + 1))
				return 9999; // overlapping storage
		slots.push_back(p);
		return slots.size() - 1;
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "create" || op == "create_ow") {
			Item *p = op == "create" ? pool.create() : pool.create_for_overwrite();
			int i = p ? id(p) : -1;
			if (p && op == "create_ow")
				put(i, a[0]);
			else if (p)
				stored[i] = 0;
			if (p)
				live[i] = true;
			r << i;
		} else if (op == "write") {
			if (live.count(a[0]))
				put(a[0], a[1]);
		}
		else if (op == "creates") {
			int n = 0;
			for (long long i = 0; i < a[0]; i++)
				if (Item *p = pool.create()) {
					n++;
					int k = id(p);
					live[k] = true;
					stored[k] = 0;
					if ((size_t)k >= N)
						n = 9999;
				}
			r << n;
		} else if (op == "destroy") {
			bool known = (size_t)a[0] < slots.size();
			bool ok = pool.destroy(known ? slots[a[0]] : nullptr);
			if (known)
				live.erase(a[0]);
			r << ok;
		} else if (op == "destroy_foreign") {
			Item other;
			r << pool.destroy(a[0] ? &other : nullptr);
		} else
			harness_error(op);
		for (size_t i = 0; i < N; i++)
			if (live.count(i))
				r << 1 << get(i);
			else
				r << 0 << 0;
	}
};

std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[0]) {
#define CASE(n) \
	case n: \
		switch (c.size() > 1 ? c[1] : 0) { \
		case 0: return std::make_unique<O<Large, n>>(); \
		case 1: return std::make_unique<O<Byte, n>>(); \
		case 2: return std::make_unique<O<Owner, n>>(); \
		case 3: return std::make_unique<O<Empty, n>>(); \
		}
		CASE(300)
		CASE(1)
		CASE(2) CASE(3) CASE(4) CASE(5) CASE(8)
	}
	return nullptr;
}
