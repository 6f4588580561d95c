#include "drv.hh"
#include "util/wear_level.hh"

// A simulated write-once medium. Cell contents: blank, junk, or a valid value.
struct Data {
	uint32_t raw = 0x12345678; // not valid
	uint32_t check = 0;
	bool validate() const
	{
		return raw < 0x7fffffff && check == ~raw * 3 && raw > 0;
	}
	static Data of(long long v)
	{
		Data d;
		if (v > 0)
			d.raw = v, d.check = ~d.raw * 3;
		else if (v < 0)
			d.raw = d.check = 0xffffffff;
		else
			d.raw = 77, d.check = 1;
		return d;
	}
};

struct PowerLoss {};

struct Medium {
	size_t n = 0;
	std::vector<long long> cell;
	std::set<size_t> unread;
	int wf = 0, ef = 0;
	int crash_at = 0, crash_effect = 0, ncalls = 0;
	std::vector<long long> log;
	bool oob = false;

	bool read(Data *d, size_t c)
	{
		if (c >= n) {
			oob = true;
			return false;
		}
		if (unread.count(c))
			return false;
		*d = Data::of(cell[c]);
		return true;
	}
	bool write(const Data &d, size_t c)
	{
		log.push_back(2), log.push_back(c);
		if (c >= n) {
			oob = true;
			return false;
		}
		long long v = d.validate() ? d.raw : 0;
		// flash: a cell that is not blank turns to junk when written
		long long res = cell[c] == -1 ? v : 0;
		if (++ncalls == crash_at) {
			if (crash_effect == 1)
				cell[c] = 0;
			else if (crash_effect == 2)
				cell[c] = res;
			throw PowerLoss{};
		}
		switch (wf) {
			case 0: cell[c] = res; return true;
			case 1: return false;
			case 2: cell[c] = 0; return false;
			case 3: cell[c] = res; return false;
			default: return true;
		}
	}
	bool erase()
	{
		log.push_back(1), log.push_back(0);
		auto half = [this] { std::fill(cell.begin(), cell.begin() + n / 2, -1); };
		auto all = [this](int v) { std::fill(cell.begin(), cell.end(), v); };
		if (++ncalls == crash_at) {
			if (crash_effect == 1)
				half();
			else if (crash_effect == 2)
				all(-1);
			throw PowerLoss{};
		}
		switch (ef) {
			case 0: all(-1); return true;
			case 1: return false;
			case 2: all(-1); return false;
			case 3: half(); return false;
			case 4: all(0); return true;
			default:
				all(-1);
				cell[0] = 0;
				return true;
		}
	}
	bool writeable(size_t c)
	{
		return c < n && cell[c] == -1;
	}
};

static Medium *med; // the medium outlives the object under test (restarts)

template<size_t N>
struct Leveler_storage {
	using data_t = Data;
	static constexpr size_t NumCells = N;
	Medium *m;
	Leveler_storage(Medium &m)
		: m{&m}
	{
	}
	bool read(Data *d, size_t c) { return m->read(d, c); }
	bool write(const Data *d, size_t c) { return m->write(*d, c); }
	bool erase() { return m->erase(); }
	bool is_writeable(size_t c) { return m->writeable(c); }
};

template<size_t N>
struct Level_storage {
	using data_t = Data;
	static constexpr size_t cell_nr_ = N;
	bool read(Data &d, size_t c) { return med->read(&d, c); }
	bool write(const Data &d, size_t c) { return med->write(d, c); }
	bool erase() { return med->erase(); }
	bool is_writeable(size_t c) { return med->writeable(c); }
};

template<size_t N>
struct Leveler : WearLeveler<Leveler_storage<N>> {
	Leveler()
		: WearLeveler<Leveler_storage<N>>{*med}
	{
	}
};

template<class W>
struct O : Obj {
	Medium m;
	std::unique_ptr<W> w;
	O(const Args &c)
	{
		med = &m;
		m.n = c[1];
		m.cell.assign(m.n, -1);
		for (size_t i = 2; i < c.size(); i++)
			m.cell[i - 2] = c[i];
		w = std::make_unique<W>();
	}
	void op(const std::string &op, const Args &a, Out &r) override
	{
		m.wf = m.ef = m.crash_at = m.ncalls = 0;
		m.log.clear();
		if (op == "write") {
			m.wf = a[1];
			m.ef = a[2];
			r << w->write(Data::of(a[0]));
			for (auto x : m.log)
				r << x;
		} else if (op == "crash") {
			m.crash_at = a[1];
			m.crash_effect = a[2];
			try {
				w->write(Data::of(a[0]));
			} catch (PowerLoss) {
			}
			m.crash_at = 0;
			w.reset();
			w = std::make_unique<W>();
		} else if (op == "restart") {
			w.reset();
			w = std::make_unique<W>();
		} else if (op == "read") {
			Data d = Data::of(987654); // a stale but valid value in the caller's variable
			bool ok = w->read(d);
			r << ok << (ok ? (d.validate() ? d.raw : -5) : 0);
		} else if (op == "unread") {
			m.unread.clear();
			for (auto x : a)
				m.unread.insert(x);
		} else
			harness_error(op);
		if (m.oob)
			r << -7777;
		for (auto x : m.cell)
			r << x;
	}
};

std::unique_ptr<Obj> make(const Args &c)
{
	switch (c[1] * 2 + c[0]) {
#define CASE(n) \
	case n * 2: return std::make_unique<O<Leveler<n>>>(c); \
	case n * 2 + 1: return std::make_unique<O<WearLevel<Level_storage<n>>>>(c);
		CASE(300)
		CASE(1)
		CASE(2) CASE(3) CASE(4) CASE(5) CASE(6) CASE(8) CASE(16) CASE(64)
	}
	return nullptr;
}
