// Controlled scheduler over a replaced std::atomic: logical threads are coroutines, every atomic access
// and every access to a shared element is a scheduling point, and loads may return stale values where
// C++20 coherence and happens-before allow it.  Include this file before any header of the repository.
#pragma once
#include <bits/stdc++.h>
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>

namespace vt
{
constexpr int MAXT = 4;
constexpr size_t STACK = 256 * 1024;
using View = std::map<int, int>; // location -> oldest store index still readable

inline void join(View &a, const View &b)
{
	for (auto [l, k] : b) {
		auto &x = a[l];
		x = std::max(x, k);
	}
}

struct Choice {
	int taken, n;
	std::array<int8_t, 2> cost; // cost of an alternative in (preemptions, data)
	std::vector<int> opts;
};

struct Aborted {};

struct Thread {
	ucontext_t ctx;
	std::vector<char> stack = std::vector<char>(STACK);
	std::function<void()> body;
	bool done = true, started = false, fresh = false;
	View view, pend, relf;
};

struct Loc {
	struct Store {
		unsigned long long val;
		View view;
	};
	std::vector<Store> st;
};

struct Sched {
	ucontext_t main;
	std::array<Thread, MAXT> th;
	int nth = 0, cur = -1; // -1: the main context
	std::vector<Loc> locs;
	View scview;
	std::vector<Choice> path;
	size_t pos = 0;
	int steps = 0, streak = 0;
	bool livelock = false;
	bool stale = false;
	std::function<int(int, const char *)> pick; // random choice; unset: depth first
	std::string events;			// memory events
	bool record = false;
	std::map<const void *, int> slots; // shared element addresses
	std::vector<std::string> hist;

	static Sched &get()
	{
		static Sched s;
		return s;
	}
	bool local(const void *p)
	{
		for (int i = 0; i < nth; i++)
			if (p >= th[i].stack.data() && p < th[i].stack.data() + STACK)
				return true;
		return false;
	}
	int choose(int n, int kind) // kind 0: preemption, 1: data
	{
		if (n <= 1)
			return 0;
		if (pos < path.size()) {
			auto &c = path[pos++];
			return std::min(c.taken, n - 1);
		}
		int t = pick ? pick(n, kind ? "data" : "sched") : 0;
		path.push_back({t, n, {int8_t(kind == 0), int8_t(kind == 1)}, {}});
		pos++;
		return t;
	}
	void ev(const char *k, int a = -1, int b = -1, int c = -1)
	{
		if (!record || cur < 0)
			return;
		char buf[80];
		snprintf(buf, sizeof buf, "%s %d %d %d %d\n", k, cur, a, b, c);
		events += buf;
	}
	void yield()
	{
		if (cur < 0)
			return;
		int me = cur;
		if (++steps > 4000) {
			livelock = true;
			swapcontext(&th[me].ctx, &main); // never resumed
		}
		int alive = 0;
		for (int i = 0; i < nth; i++)
			alive += !th[i].done;
		if (alive == 1)
			return;
		std::vector<int> opts{me};
		for (int d = 1; d < nth; d++)
			if (int i = (me + d) % nth; !th[i].done)
				opts.push_back(i);
		int k;
		if (++streak > 400) {
			k = 1; // fairness: a spinning thread lets the others run
			streak = 0;
		} else
			k = choose(opts.size(), 0);
		if (opts[k] != me) {
			streak = 0;
			cur = opts[k];
			swapcontext(&th[me].ctx, &th[cur].ctx);
		}
	}
	// the point before a visible access
	void point()
	{
		if (cur < 0)
			return;
		if (th[cur].fresh) {
			th[cur].fresh = false;
			return;
		}
		yield();
	}
	static void entry()
	{
		auto &s = get();
		int me = s.cur;
		s.th[me].body();
		s.th[me].done = true;
		// hand over to any unfinished thread
		std::vector<int> opts;
		for (int i = 0; i < s.nth; i++)
			if (!s.th[i].done)
				opts.push_back(i);
		if (opts.empty()) {
			s.cur = -1;
			setcontext(&s.main);
		}
		int k = s.choose(opts.size(), 0);
		s.streak = 0;
		s.cur = opts[k];
		setcontext(&s.th[s.cur].ctx);
	}
	void reset()
	{
		locs.clear();
		slots.clear();
		scview.clear();
		hist.clear();
		events.clear();
		pos = 0;
		steps = streak = 0;
		livelock = false;
		cur = -1;
	}
	void run()
	{
		for (int i = 0; i < nth; i++) {
			auto &t = th[i];
			t.done = false;
			t.fresh = false;
			t.view.clear();
			t.pend.clear();
			t.relf.clear();
			// everything done by the main context happens before the threads
			for (size_t l = 0; l < locs.size(); l++)
				t.view[l] = locs[l].st.size() - 1;
			getcontext(&t.ctx);
			t.ctx.uc_stack.ss_sp = t.stack.data();
			t.ctx.uc_stack.ss_size = t.stack.size();
			t.ctx.uc_link = nullptr;
			makecontext(&t.ctx, entry, 0);
		}
		events = "#";
		for (auto &l : locs)
			events += " " + std::to_string(l.st.size());
		events += "\n";
		record = true;
		int k = choose(nth, 0);
		cur = k;
		swapcontext(&main, &th[k].ctx);
		cur = -1;
		record = false;
	}

	// ---- memory model
	static bool acq(std::memory_order m) { return m == std::memory_order_acquire || m == std::memory_order_consume || m == std::memory_order_acq_rel || m == std::memory_order_seq_cst; }
	static bool rel(std::memory_order m) { return m == std::memory_order_release || m == std::memory_order_acq_rel || m == std::memory_order_seq_cst; }
	int newloc(unsigned long long v)
	{
		locs.push_back({{{v, {}}}});
		int l = locs.size() - 1;
		if (cur >= 0)
			th[cur].view[l] = 0;
		return l;
	}
	void reads(int l, int k, std::memory_order m)
	{
		auto &t = th[cur];
		t.view[l] = std::max(t.view[l], k);
		if (m == std::memory_order_seq_cst)
			join(t.view, scview);
		if (acq(m))
			join(t.view, locs[l].st[k].view);
		else
			join(t.pend, locs[l].st[k].view);
	}
	unsigned long long load(int l, std::memory_order m)
	{
		auto &L = locs[l];
		if (cur < 0)
			return L.st.back().val;
		point();
		auto &L2 = locs[l];
		int last = L2.st.size() - 1, lo = th[cur].view[l];
		if (m == std::memory_order_seq_cst && scview.count(l))
			lo = std::max(lo, scview[l]);
		int k = last;
		if (stale && lo < last)
			k = last - choose(last - lo + 1, 1);
		reads(l, k, m);
		ev("L", l, (int)m, k);
		return L2.st[k].val;
	}
	void append(int l, unsigned long long v, std::memory_order m, bool rmw)
	{
		auto &t = th[cur];
		auto &L = locs[l];
		int k = L.st.size();
		t.view[l] = k;
		View w = t.relf;
		w[l] = k;
		if (rmw)
			join(w, L.st.back().view); // release sequence
		if (rel(m))
			join(w, t.view);
		L.st.push_back({v, w});
		if (m == std::memory_order_seq_cst) {
			join(scview, t.view);
			scview[l] = k;
		}
	}
	void store(int l, unsigned long long v, std::memory_order m)
	{
		if (cur < 0) {
			locs[l].st.push_back({v, {}});
			return;
		}
		point();
		append(l, v, m, false);
		ev("S", l, (int)m);
	}
	// read-modify-write on the newest value; f returns false to only load (failed exchange)
	template<class F>
	unsigned long long rmw(int l, std::memory_order ok, std::memory_order fail, bool weak, F f)
	{
		if (cur < 0) {
			auto old = locs[l].st.back().val, v = old;
			if (f(v))
				locs[l].st.push_back({v, {}});
			return old;
		}
		point();
		int k = locs[l].st.size() - 1;
		auto old = locs[l].st[k].val, v = old;
		bool spurious = weak && choose(2, 1) == 1;
		bool done = !spurious && f(v);
		if (spurious)
			spurious_fail = true;
		if (done) {
			reads(l, k, ok);
			append(l, v, ok, true);
			ev("X", l, (int)ok);
		} else {
			reads(l, k, fail);
			ev("L", l, (int)fail, k);
		}
		return old;
	}
	bool spurious_fail = false;
	void fence(std::memory_order m)
	{
		if (cur < 0)
			return;
		auto &t = th[cur];
		if (acq(m))
			join(t.view, t.pend);
		if (m == std::memory_order_seq_cst) {
			join(t.view, scview);
			join(scview, t.view);
		}
		if (rel(m))
			t.relf = t.view;
		ev("F", (int)m);
	}
	// ---- shared elements (plain memory)
	int slot(const void *p)
	{
		auto [it, fresh] = slots.try_emplace(p, (int)slots.size());
		return it->second;
	}
	void plain(const void *p, bool write)
	{
		if (cur < 0 || local(p))
			return;
		point();
		ev(write ? "W" : "R", slot(p));
	}
	void mid(const void *p)
	{
		if (cur < 0 || local(p))
			return;
		yield();
	}
};

inline unsigned long long bits(auto v)
{
	unsigned long long x = 0;
	static_assert(sizeof(v) <= 8);
	memcpy(&x, &v, sizeof v);
	return x;
}
template<class T>
T unbits(unsigned long long x)
{
	T v;
	memcpy(&v, &x, sizeof v);
	return v;
}

// An element of two words; a mix of two elements is visible as torn
struct Elem {
	unsigned a = 0, b = ~0u;
	Elem() { touch(true); }
	explicit Elem(int v)
		: a(v)
		, b(~(unsigned)v)
	{
	}
	Elem(const Elem &o) { copy(o); }
	Elem &operator=(const Elem &o)
	{
		copy(o);
		return *this;
	}
	Elem(Elem &&o) { move(std::move(o)); }
	Elem &operator=(Elem &&o)
	{
		move(std::move(o));
		return *this;
	}
	long long val() const { return b == ~a ? (long long)a : -7777; }

private:
	void touch(bool w) const { Sched::get().plain(this, w); }
	void copy(const Elem &o)
	{
		auto &s = Sched::get();
		s.plain(&o, false);
		unsigned x = o.a;
		s.mid(&o);
		unsigned y = o.b;
		touch(true);
		a = x;
		s.mid(this);
		b = y;
	}
	void move(Elem &&o)
	{
		copy(o);
		auto &s = Sched::get();
		s.plain(&o, true); // a moved-from element is emptied
		o.a = 0xdead;
		s.mid(&o);
		o.b = ~0xdeadu;
	}
};
} // namespace vt

namespace std
{
template<class T>
struct vt_atomic {
	using value_type = T;
	static constexpr bool is_always_lock_free = true;
	int l;
	vt_atomic() noexcept : vt_atomic(T{}) {}
	vt_atomic(T v) noexcept : l(vt::Sched::get().newloc(vt::bits(v))) {}
	vt_atomic(const vt_atomic &) = delete;
	vt_atomic &operator=(const vt_atomic &) = delete;
	vt_atomic &operator=(const vt_atomic &) volatile = delete;
	bool is_lock_free() const noexcept { return true; }
	void wait(T old, memory_order m = memory_order_seq_cst) const
	{
		while (vt::bits(load(m)) == vt::bits(old))
			;
	}
	void notify_one() noexcept {}
	void notify_all() noexcept {}
	T load(memory_order m = memory_order_seq_cst) const { return vt::unbits<T>(vt::Sched::get().load(l, m)); }
	void store(T v, memory_order m = memory_order_seq_cst) { vt::Sched::get().store(l, vt::bits(v), m); }
	operator T() const { return load(); }
	T operator=(T v)
	{
		store(v);
		return v;
	}
	T exchange(T v, memory_order m = memory_order_seq_cst)
	{
		return up(m, [&](T) { return v; });
	}
	template<class F>
	T up(memory_order m, F f)
	{
		return vt::unbits<T>(vt::Sched::get().rmw(l, m, m, false, [&](unsigned long long &x) {
			x = vt::bits((T)f(vt::unbits<T>(x)));
			return true;
		}));
	}
	bool cas(T &e, T v, memory_order ok, memory_order fail, bool weak)
	{
		auto &s = vt::Sched::get();
		bool hit = false;
		T old = vt::unbits<T>(s.rmw(l, ok, fail, weak, [&](unsigned long long &x) {
			if (x != vt::bits(e))
				return false;
			x = vt::bits(v);
			return hit = true;
		}));
		if (!hit)
			e = old;
		return hit;
	}
	static memory_order failure(memory_order m)
	{
		return m == memory_order_acq_rel ? memory_order_acquire : m == memory_order_release ? memory_order_relaxed : m;
	}
	bool compare_exchange_strong(T &e, T v, memory_order m = memory_order_seq_cst) { return cas(e, v, m, failure(m), false); }
	bool compare_exchange_strong(T &e, T v, memory_order a, memory_order b) { return cas(e, v, a, b, false); }
	bool compare_exchange_weak(T &e, T v, memory_order m = memory_order_seq_cst) { return cas(e, v, m, failure(m), true); }
	bool compare_exchange_weak(T &e, T v, memory_order a, memory_order b) { return cas(e, v, a, b, true); }
	T fetch_add(T d, memory_order m = memory_order_seq_cst) { return up(m, [&](T x) { return x + d; }); }
	T fetch_sub(T d, memory_order m = memory_order_seq_cst) { return up(m, [&](T x) { return x - d; }); }
	T fetch_or(T d, memory_order m = memory_order_seq_cst) { return up(m, [&](T x) { return x | d; }); }
	T fetch_and(T d, memory_order m = memory_order_seq_cst) { return up(m, [&](T x) { return x & d; }); }
	T fetch_xor(T d, memory_order m = memory_order_seq_cst) { return up(m, [&](T x) { return x ^ d; }); }
	T operator++() { return fetch_add(1) + 1; }
	T operator++(int) { return fetch_add(1); }
	T operator--() { return fetch_sub(1) - 1; }
	T operator--(int) { return fetch_sub(1); }
	T operator+=(T d) { return fetch_add(d) + d; }
	T operator-=(T d) { return fetch_sub(d) - d; }
	T operator|=(T d) { return fetch_or(d) | d; }
	T operator&=(T d) { return fetch_and(d) & d; }
};
struct vt_atomic_flag {
	vt_atomic<bool> f{false};
	bool test_and_set(memory_order m = memory_order_seq_cst) { return f.exchange(true, m); }
	void clear(memory_order m = memory_order_seq_cst) { f.store(false, m); }
	bool test(memory_order m = memory_order_seq_cst) const { return f.load(m); }
};
// The free functions of <atomic>
template<class T>
using vt_id = std::type_identity_t<T>;
template<class T> void vt_a_init(vt_atomic<T> *a, vt_id<T> v) { a->store(v, memory_order_relaxed); }
template<class T> T vt_a_load(const vt_atomic<T> *a) { return a->load(); }
template<class T> T vt_a_load_x(const vt_atomic<T> *a, memory_order m) { return a->load(m); }
template<class T> void vt_a_store(vt_atomic<T> *a, vt_id<T> v) { a->store(v); }
template<class T> void vt_a_store_x(vt_atomic<T> *a, vt_id<T> v, memory_order m) { a->store(v, m); }
template<class T> T vt_a_xchg(vt_atomic<T> *a, vt_id<T> v) { return a->exchange(v); }
template<class T> T vt_a_xchg_x(vt_atomic<T> *a, vt_id<T> v, memory_order m) { return a->exchange(v, m); }
template<class T> bool vt_a_cas(vt_atomic<T> *a, vt_id<T> *e, vt_id<T> v) { return a->compare_exchange_strong(*e, v); }
template<class T> bool vt_a_cas_x(vt_atomic<T> *a, vt_id<T> *e, vt_id<T> v, memory_order x, memory_order y) { return a->compare_exchange_strong(*e, v, x, y); }
template<class T> bool vt_a_casw(vt_atomic<T> *a, vt_id<T> *e, vt_id<T> v) { return a->compare_exchange_weak(*e, v); }
template<class T> bool vt_a_casw_x(vt_atomic<T> *a, vt_id<T> *e, vt_id<T> v, memory_order x, memory_order y) { return a->compare_exchange_weak(*e, v, x, y); }
#define VT_RMW(N) \
	template<class T> T vt_a_##N(vt_atomic<T> *a, vt_id<T> v) { return a->N(v); } \
	template<class T> T vt_a_##N##_x(vt_atomic<T> *a, vt_id<T> v, memory_order m) { return a->N(v, m); }
VT_RMW(fetch_add)
VT_RMW(fetch_sub)
VT_RMW(fetch_or)
VT_RMW(fetch_and)
VT_RMW(fetch_xor)
#undef VT_RMW
inline bool vt_f_tas(vt_atomic_flag *f) { return f->test_and_set(); }
inline bool vt_f_tas_x(vt_atomic_flag *f, memory_order m) { return f->test_and_set(m); }
inline void vt_f_clear(vt_atomic_flag *f) { f->clear(); }
inline void vt_f_clear_x(vt_atomic_flag *f, memory_order m) { f->clear(m); }
inline bool vt_f_test(const vt_atomic_flag *f) { return f->test(); }
inline bool vt_f_test_x(const vt_atomic_flag *f, memory_order m) { return f->test(m); }
inline void vt_fence(memory_order m) { vt::Sched::get().fence(m); }
inline void vt_signal_fence(memory_order) {}
} // namespace std
#define atomic vt_atomic
#define atomic_flag vt_atomic_flag
#define atomic_bool vt_atomic<bool>
#define atomic_size_t vt_atomic<size_t>
#define atomic_ptrdiff_t vt_atomic<ptrdiff_t>
#define atomic_int vt_atomic<int>
#define atomic_uint vt_atomic<unsigned>
#define atomic_char vt_atomic<char>
#define atomic_schar vt_atomic<signed char>
#define atomic_uchar vt_atomic<unsigned char>
#define atomic_short vt_atomic<short>
#define atomic_ushort vt_atomic<unsigned short>
#define atomic_long vt_atomic<long>
#define atomic_ulong vt_atomic<unsigned long>
#define atomic_llong vt_atomic<long long>
#define atomic_ullong vt_atomic<unsigned long long>
#define atomic_int8_t vt_atomic<int8_t>
#define atomic_int16_t vt_atomic<int16_t>
#define atomic_int32_t vt_atomic<int32_t>
#define atomic_int64_t vt_atomic<int64_t>
#define atomic_uint8_t vt_atomic<uint8_t>
#define atomic_uint16_t vt_atomic<uint16_t>
#define atomic_uint32_t vt_atomic<uint32_t>
#define atomic_uint64_t vt_atomic<uint64_t>
#define atomic_int_fast8_t vt_atomic<int_fast8_t>
#define atomic_int_fast16_t vt_atomic<int_fast16_t>
#define atomic_int_fast32_t vt_atomic<int_fast32_t>
#define atomic_int_fast64_t vt_atomic<int_fast64_t>
#define atomic_uint_fast8_t vt_atomic<uint_fast8_t>
#define atomic_uint_fast16_t vt_atomic<uint_fast16_t>
#define atomic_uint_fast32_t vt_atomic<uint_fast32_t>
#define atomic_uint_fast64_t vt_atomic<uint_fast64_t>
#define atomic_int_least8_t vt_atomic<int_least8_t>
#define atomic_int_least16_t vt_atomic<int_least16_t>
#define atomic_int_least32_t vt_atomic<int_least32_t>
#define atomic_int_least64_t vt_atomic<int_least64_t>
#define atomic_uint_least8_t vt_atomic<uint_least8_t>
#define atomic_uint_least16_t vt_atomic<uint_least16_t>
#define atomic_uint_least32_t vt_atomic<uint_least32_t>
#define atomic_uint_least64_t vt_atomic<uint_least64_t>
#define atomic_intptr_t vt_atomic<intptr_t>
#define atomic_uintptr_t vt_atomic<uintptr_t>
#define atomic_intmax_t vt_atomic<intmax_t>
#define atomic_uintmax_t vt_atomic<uintmax_t>
#define atomic_init vt_a_init
#define atomic_load vt_a_load
#define atomic_load_explicit vt_a_load_x
#define atomic_store vt_a_store
#define atomic_store_explicit vt_a_store_x
#define atomic_exchange vt_a_xchg
#define atomic_exchange_explicit vt_a_xchg_x
#define atomic_compare_exchange_strong vt_a_cas
#define atomic_compare_exchange_strong_explicit vt_a_cas_x
#define atomic_compare_exchange_weak vt_a_casw
#define atomic_compare_exchange_weak_explicit vt_a_casw_x
#define atomic_fetch_add vt_a_fetch_add
#define atomic_fetch_add_explicit vt_a_fetch_add_x
#define atomic_fetch_sub vt_a_fetch_sub
#define atomic_fetch_sub_explicit vt_a_fetch_sub_x
#define atomic_fetch_or vt_a_fetch_or
#define atomic_fetch_or_explicit vt_a_fetch_or_x
#define atomic_fetch_and vt_a_fetch_and
#define atomic_fetch_and_explicit vt_a_fetch_and_x
#define atomic_fetch_xor vt_a_fetch_xor
#define atomic_fetch_xor_explicit vt_a_fetch_xor_x
#define atomic_flag_test_and_set vt_f_tas
#define atomic_flag_test_and_set_explicit vt_f_tas_x
#define atomic_flag_clear vt_f_clear
#define atomic_flag_clear_explicit vt_f_clear_x
#define atomic_flag_test vt_f_test
#define atomic_flag_test_explicit vt_f_test_x
#define atomic_thread_fence vt_fence
#define atomic_signal_fence vt_signal_fence

// ------------------------------------------------------------------------------ the explorer
// Input, one job per line:
//   mode(sc|weak) preemptions stale maxexec randoms seed cfg.. | op a.. ; op a.. | op a.. ; ...
// Output per distinct history: "H <execution count> <choices>", then its lines, then "." ; per job "J n distinct".
namespace vt
{
using Op = std::pair<std::string, std::vector<long long>>;
using Prog = std::vector<Op>;

struct World {
	virtual ~World() = default;
	virtual void describe(std::vector<long long> &) {} // facts about the fresh object added to the configuration
	virtual void call(int t, const Op &op, std::vector<long long> &r) = 0;
	virtual void finish(std::vector<long long> &) {} // observed by the main context at the end
};
} // namespace vt

std::unique_ptr<vt::World> make_world(const std::vector<long long> &cfg);

namespace vt
{
inline std::string g_where;
inline void on_crash(int sig)
{
	char buf[64];
	int n = snprintf(buf, sizeof buf, "\nCRASH %d ", sig);
	(void)!write(1, buf, n);
	std::string p;
	for (auto &c : Sched::get().path)
		p += std::to_string(c.taken) + ",";
	p += "\n";
	(void)!write(1, p.data(), p.size());
	_exit(70);
}

struct Explorer {
	std::vector<long long> cfg;
	std::vector<Prog> progs;
	bool weak;

	std::string execute()
	{
		auto &s = Sched::get();
		s.reset();
		s.nth = 0;
		auto w = make_world(cfg);
		if (!w) {
			fprintf(stderr, "HARNESS-ERROR no such configuration\n");
			_exit(77);
		}
		s.nth = progs.size();
		s.stale = weak;
		std::string hist = "I";
		std::vector<long long> desc;
		w->describe(desc);
		for (auto x : desc)
			hist += " " + std::to_string(x);
		hist += "\n";
		for (int t = 0; t < s.nth; t++) {
			s.th[t].body = [&, t] {
				for (size_t i = 0; i < progs[t].size(); i++) {
					auto &op = progs[t][i];
					if (i)
						s.yield();
					s.th[t].fresh = true;
					std::string e = "C " + std::to_string(t) + " " + op.first;
					for (auto x : op.second)
						e += " " + std::to_string(x);
					hist += e + "\n";
					std::vector<long long> r;
					w->call(t, op, r);
					s.th[t].fresh = false;
					e = "T " + std::to_string(t) + " " + op.first;
					for (auto x : r)
						e += " " + std::to_string(x);
					hist += e + "\n";
				}
			};
		}
		alarm(20);
		s.run();
		alarm(0);
		std::vector<long long> fin;
		if (s.livelock) {
			hist += "T 9 livelock\n";
			w.release(); // its threads are abandoned in the middle of a call
		} else {
			w->finish(fin);
			hist += "T 9 finish";
			for (auto x : fin)
				hist += " " + std::to_string(x);
			hist += "\n";
		}
		return weak ? hist + s.events : hist;
	}

	// key under which two executions are the same: for weak mode the order of events of each thread
	// together with what each load read
	std::string key(const std::string &h)
	{
		if (!weak)
			return h;
		std::array<std::string, MAXT + 1> per;
		std::istringstream is(h);
		std::string ln;
		while (std::getline(is, ln)) {
			int t = ln.size() < 3 || ln[2] == '9' || ln[0] == '#' || ln[0] == 'I' ? MAXT : ln[2] - '0';
			per[t] += ln + "\n";
		}
		std::string k;
		for (auto &p : per)
			k += p + "|";
		return k;
	}

	void job(int preempt, int nstale, long maxexec, long randoms, unsigned seed)
	{
		auto &s = Sched::get();
		std::unordered_set<std::string> seen;
		long n = 0, distinct = 0;
		auto emit = [&](const std::string &h) {
			if (!seen.insert(key(h)).second)
				return;
			distinct++;
			std::string p;
			for (auto &c : s.path)
				p += std::to_string(c.taken) + ",";
			printf("H %ld %s\n%s.\n", n, p.c_str(), h.c_str());
		};
		s.pick = nullptr;
		s.path.clear();
		bool complete = false;
		while (n < maxexec) {
			auto h = execute();
			n++;
			s.path.resize(std::min(s.path.size(), s.pos));
			emit(h);
			// next path, depth first, within the budgets
			int used[2] = {0, 0};
			for (auto &c : s.path)
				if (c.taken)
					used[0] += c.cost[0], used[1] += c.cost[1];
			bool more = false;
			while (!s.path.empty()) {
				auto c = s.path.back();
				if (c.taken)
					used[0] -= c.cost[0], used[1] -= c.cost[1];
				if (c.taken + 1 < c.n && used[0] + c.cost[0] <= preempt && used[1] + c.cost[1] <= nstale) {
					s.path.back().taken++;
					more = true;
					break;
				}
				s.path.pop_back();
			}
			if (!more) {
				complete = true;
				break;
			}
		}
		std::mt19937 rng(seed);
		for (long i = 0; i < randoms; i++) {
			double ps = std::array{.1, .3, .6}[i % 3];
			s.pick = [&, ps](int k, const char *what) -> int {
				if (std::uniform_real_distribution<>{}(rng) > (what[0] == 's' ? ps : .4))
					return 0;
				return 1 + rng() % (k - 1);
			};
			s.path.clear();
			auto h = execute();
			n++;
			emit(h);
		}
		s.pick = nullptr;
		printf("J %ld %ld %d\n", n, distinct, (int)complete);
		fflush(stdout);
	}

	static int main_loop()
	{
		for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGALRM})
			signal(sg, on_crash);
		std::string line;
		while (std::getline(std::cin, line)) {
			std::vector<std::string> part(1);
			for (char c : line)
				if (c == '|')
					part.emplace_back();
				else
					part.back() += c;
			std::istringstream is(part[0]);
			std::string mode, rep;
			int pre, st;
			long mx, rnd;
			unsigned seed;
			is >> mode >> pre >> st >> mx >> rnd >> seed >> rep;
			Explorer x;
			x.weak = mode == "weak";
			long long v;
			while (is >> v)
				x.cfg.push_back(v);
			for (size_t i = 1; i < part.size(); i++) {
				Prog p;
				std::istringstream ps(part[i]);
				std::string tok;
				bool start = true;
				while (ps >> tok) {
					if (tok == ";") {
						start = true;
						continue;
					}
					if (start) {
						p.push_back({tok, {}});
						start = false;
					} else
						p.back().second.push_back(atoll(tok.c_str()));
				}
				x.progs.push_back(p);
			}
			if (rep != "-") { // replay one execution
				auto &s = Sched::get();
				s.path.clear();
				std::istringstream rs(rep);
				std::string tok;
				while (std::getline(rs, tok, ','))
					s.path.push_back({atoi(tok.c_str()), 99, {0, 0}, {}});
				auto h = x.execute();
				printf("H 0 %s\n%s.\nJ 1 1 1\n", rep.c_str(), h.c_str());
				fflush(stdout);
			} else
				x.job(pre, st, mx, rnd, seed);
		}
		return 0;
	}
};
} // namespace vt

int main() { return vt::Explorer::main_loop(); }
