#include "drv.hh"
#include "util/mem_test.hh"
#include <sys/mman.h>
#include <ucontext.h>

// Memory of some pages of 1024 words below 4 GB; pages may share storage (a stuck address line).
// A page can be armed: the first access to it flips a bit of some word elsewhere (coupled cells).
// A word can be bad: every write to it leaves one bit inverted (accesses to its page are followed one by one).
constexpr size_t PAGE = 4096, WORDS = PAGE / 4;
static size_t PAGES;
static uint32_t *mem;
static int armed = -1;
static uint32_t victim, bit;
static std::vector<int> watched; // pages with the storage of the bad word
static uint32_t *bad;
static uint32_t settled;
static bool wrote;
static void trap(int, siginfo_t *, void *c)
{
	if (wrote || *bad != settled)
		settled = (*bad ^= 1u << bit);
	wrote = false;
	for (auto p : watched)
		mprotect(mem + p * WORDS, PAGE, PROT_NONE);
	((ucontext_t *)c)->uc_mcontext.gregs[REG_EFL] &= ~0x100;
}
static void fault(int, siginfo_t *si, void *c)
{
	auto at = (uintptr_t)si->si_addr;
	for (auto p : watched)
		if (at / PAGE == (uintptr_t)mem / PAGE + p) {
			auto &regs = ((ucontext_t *)c)->uc_mcontext.gregs;
			if ((regs[REG_ERR] & 2) && (at % PAGE) / 4 == victim % WORDS)
				wrote = true;
			mprotect(mem + p * WORDS, PAGE, PROT_READ | PROT_WRITE);
			regs[REG_EFL] |= 0x100; // stop after this instruction
			return;
		}
	if (armed < 0 || at / PAGE != (uintptr_t)mem / PAGE + armed) {
		static const char msg[] = "memtest: access outside\n";
		(void)!write(2, msg, sizeof msg - 1);
		_exit(99);
	}
	mprotect(mem + armed * WORDS, PAGE, PROT_READ | PROT_WRITE);
	armed = -1;
	mem[victim] ^= 1u << bit;
}
struct Mem : Obj {
	int fd;
	std::vector<int> map;
	uint32_t *cells; // the storage itself
	Mem(const Args &a)
	{
		Args c = a;
		if (a[0] < 0) { // -1, number of pages, address line that is stuck (-1: none)
			c.clear();
			for (long long p = 0; p < a[1]; p++)
				c.push_back(a[2] >= 0 ? p & ~(1LL << a[2]) : p);
		}
		PAGES = c.size();
		map.resize(PAGES);
		fd = memfd_create("mem", 0);
		if (ftruncate(fd, PAGES * PAGE))
			harness_error("ftruncate");
		cells = (uint32_t *)mmap(nullptr, PAGES * PAGE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		mem = (uint32_t *)mmap(nullptr, PAGES * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_32BIT, -1, 0);
		if (mem == MAP_FAILED || cells == MAP_FAILED)
			harness_error("mmap");
		for (size_t i = 0; i < PAGES; i++) {
			map[i] = (int)c[i];
			if (mmap(mem + i * WORDS, PAGE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, c[i] * PAGE) == MAP_FAILED)
				harness_error("mmap");
		}
		struct sigaction sa{};
		sa.sa_sigaction = fault;
		sa.sa_flags = SA_SIGINFO;
		sigaction(SIGSEGV, &sa, nullptr);
		sa.sa_sigaction = trap;
		sigaction(SIGTRAP, &sa, nullptr);
	}
	~Mem()
	{
		munmap(mem, PAGES * PAGE);
		munmap(cells, PAGES * PAGE);
		close(fd);
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		// start, stop (words), by address; "couple": page, word, bit
		auto x = (size_t)a[0], y = (size_t)a[1];
		for (size_t i = 0; i < PAGES * WORDS; i++)
			cells[i] = 0xA5000000u + (uint32_t)i;
		std::vector<bool> mine(PAGES * WORDS);
		for (size_t w = x; w < y; w++)
			mine[map[w / WORDS] * WORDS + w % WORDS] = true;
		if (op == "couple") {
			victim = (uint32_t)a[4];
			bit = (uint32_t)a[5];
			mine[map[victim / WORDS] * WORDS + victim % WORDS] = true;
			armed = (int)a[3];
			mprotect(mem + armed * WORDS, PAGE, PROT_NONE);
		} else if (op == "flip") { // word, bit
			victim = (uint32_t)a[3];
			bit = (uint32_t)a[4];
			bad = cells + map[victim / WORDS] * WORDS + victim % WORDS;
			mine[bad - cells] = true;
			settled = *bad;
			wrote = false;
			for (size_t p = 0; p < PAGES; p++)
				if (map[p] == map[victim / WORDS]) {
					watched.push_back((int)p);
					mprotect(mem + p * WORDS, PAGE, PROT_NONE);
				}
		} else if (op != "check")
			harness_error(op);
		auto base = (uint32_t)(uintptr_t)mem;
		r << (a[2] ? MemTest::check((uint32_t)(base + x * 4), (uint32_t)(base + y * 4)) : MemTest::check(mem + x, mem + y));
		for (auto p : watched)
			mprotect(mem + p * WORDS, PAGE, PROT_READ | PROT_WRITE);
		watched.clear();
		if (armed >= 0)
			mprotect(mem + armed * WORDS, PAGE, PROT_READ | PROT_WRITE);
		armed = -1;
		long changed = 0; // storage that was not under test
		for (size_t i = 0; i < PAGES * WORDS; i++)
			changed += !mine[i] && cells[i] != 0xA5000000u + (uint32_t)i;
		r << changed;
	}
};
std::unique_ptr<Obj> make(const Args &c)
{
	return std::make_unique<Mem>(c);
}
