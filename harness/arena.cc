#include "drv.hh"
#include "util/monotonic_allocator.hh"

struct O : Obj {
	std::unique_ptr<uint8_t[]> mem;
	size_t n;
	std::unique_ptr<MonotonicAllocator> al;
	DUP(al)
	O(size_t n)
		: mem{new uint8_t[n]}
		, n{n}
		, al{new MonotonicAllocator{std::span<uint8_t>{mem.get(), n}}}
	{
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "alloc") {
			uint8_t *p = al->allocate(HUGE_SIZE(a[0]));
			r << (p != nullptr) << (p ? p - mem.get() : 0);
			if (p) // the whole block must be usable (AddressSanitizer)
				memset(p, 0x77, (size_t)a[0]);
		} else if (op == "reset")
			al->reset();
		else
			harness_error(op);
		r << al->free_space() << al->total_size();
	}
};

std::unique_ptr<Obj> make(const Args &c)
{
	return std::make_unique<O>(c[0]);
}
