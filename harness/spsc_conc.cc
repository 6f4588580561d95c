#include "conc.hh"
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"

using vt::Elem;

template<class F>
struct W : vt::World {
	std::unique_ptr<F> f;
	size_t tail = 0; // the consumer's position, in programs that use "skip"
	void call(int, const vt::Op &op, std::vector<long long> &r) override
	{
		auto &[o, a] = op;
		if (o == "put")
			r.push_back(f->put(Elem((int)a[0])));
		else if (o == "get") {
			auto x = f->get();
			tail += x.has_value();
			r.push_back(x.has_value());
			r.push_back(x ? x->val() : 0);
		} else if (o == "get_move") {
			Elem e;
			bool ok = f->get_move(e);
			tail += ok;
			r.push_back(ok);
			r.push_back(ok ? e.val() : 0);
		} else if (o == "get_or_default")
			r.push_back(f->get_or_default().val());
		else if (o == "remove_first")
			f->remove_first();
		else if (o == "reset" || o == "preset")
			f->reset();
		else if (o == "keep") { // the consumer discards all but the a[0] newest
			if (f->num_filled() > (size_t)a[0])
				f->set_read_offset((size_t)a[0]);
		} else if (o == "skip") { // the consumer moves its position a[0] elements on
			if (f->num_filled() >= (size_t)a[0])
				f->set_read_pos(tail += (size_t)a[0]);
		} else if (o == "num_free")
			r.push_back((long long)f->num_free());
		else if (o == "full")
			r.push_back(f->full());
		else if (o == "num_filled")
			r.push_back((long long)f->num_filled());
		else if (o == "empty")
			r.push_back(f->empty());
		else {
			fprintf(stderr, "HARNESS-ERROR op %s\n", o.c_str());
			_exit(77);
		}
	}
	void finish(std::vector<long long> &r) override
	{
		// what is left, in order
		r.push_back((long long)f->num_filled());
		for (int i = 0; i < 64; i++) {
			auto x = f->get();
			if (!x)
				break;
			r.push_back(x->val());
		}
	}
};

template<size_t N>
std::unique_ptr<vt::World> fixed(const std::vector<long long> &c)
{
	auto w = std::make_unique<W<LockFreeFifoSpsc<Elem, N>>>();
	w->f = std::make_unique<LockFreeFifoSpsc<Elem, N>>();
	w->f->set_write_pos((size_t)c[2]);
	w->f->set_read_pos((size_t)c[2]);
	w->tail = (size_t)c[2];
	return w;
}

static std::unique_ptr<vt::World> bare(const std::vector<long long> &c)
{
	if (c[0] == 1) {
		auto w = std::make_unique<W<LockFreeFifoSpscDyn<Elem>>>();
		w->f = std::make_unique<LockFreeFifoSpscDyn<Elem>>((size_t)c[1]);
		w->f->set_write_pos((size_t)c[2]);
		w->f->set_read_pos((size_t)c[2]);
		w->tail = (size_t)c[2];
		return w;
	}
	switch (c[1]) {
		case 1: return fixed<1>(c);
		case 2: return fixed<2>(c);
		case 4: return fixed<4>(c);
	}
	return nullptr;
}

// configuration: kind, size, starting position of both counters, number of elements (1..k) already put
std::unique_ptr<vt::World> make_world(const std::vector<long long> &c)
{
	auto w = bare(c);
	std::vector<long long> r;
	for (int i = 1; w && c.size() > 3 && i <= c[3]; i++)
		w->call(0, {"put", {i}}, r);
	return w;
}
