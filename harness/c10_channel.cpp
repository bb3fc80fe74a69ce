// MT
// channel: every interleaving of producers, consumers and closers.
#include "lin.hpp"
#include <dice/template-library/channel.hpp>

namespace dtl = dice::template_library;

enum { PUSH, TRY_PUSH, POP, TRY_POP, CLOSE, CLOSED };
static uint8_t val[16]; // the payload of every element
struct boom {};
template<bool Throws>
struct Elem {
	int id; uint8_t payload;
	explicit Elem(int i) noexcept : id{i}, payload{val[i]} { dtl_shared(1, 1); }
	Elem(Elem const &o) noexcept(!Throws) : id{o.id}, payload{o.payload} { if (Throws && o.id >= 8) throw boom{}; dtl_shared(1, 1); }
	Elem(Elem &&o) noexcept(!Throws) : id{o.id}, payload{o.payload} { if (Throws && o.id >= 4 && dtl_shared(2, 0)) { dtl_shared(2, (uint64_t) -1); throw boom{}; } o.id = 0; dtl_shared(1, 1); }
	Elem &operator=(Elem &&o) noexcept { id = o.id; payload = o.payload; o.id = 0; return *this; }
	Elem &operator=(Elem const &o) noexcept = default;
	~Elem() { dtl_shared(1, (uint64_t) -1); }
};
struct Spec {
	int q[8]; int n = 0; uint64_t cap; bool closed = false;
	bool apply(lin::Op const &o) {
		switch (o.kind) {
			case PUSH: case TRY_PUSH:
				if (!o.ret) return closed || (o.kind == TRY_PUSH && (uint64_t) n >= cap);
				if (closed || (uint64_t) n >= cap || n == 8) return false;
				q[n++] = o.arg;
				return true;
			case POP: case TRY_POP:
				if (!o.ret) return n == 0 && (closed || o.kind == TRY_POP);
				if (n == 0 || q[0] != o.ret) return false;
				for (int i = 1; i < n; ++i) q[i - 1] = q[i];
				--n;
				return true;
			case CLOSE: closed = true; return true;
			case CLOSED: return (o.ret != 0) == closed;
		}
		return false;
	}
};
struct Prog { int n; struct { int kind, arg; } op[5]; };
template<typename E>
struct Run {
	using Chan = dtl::channel<E>;
	static inline Chan *ch;
	static inline Prog prog[4];
	static void got(std::optional<E> const &v, lin::Rec &r) {
		int const id = v.has_value() ? v->id : 0;
		r.ret(id);
		if (v.has_value()) CHECKM((id > 0) & (v->payload == val[id]), "the popped element is one that was pushed");
	}
	static void one(int t, int kind, int arg) {
		lin::Rec r{t, kind, arg};
		switch (kind) {
			case PUSH: {
				bool ok;
				if (arg % 3 == 0) { E const e{arg}; ok = ch->push(e); CHECKM(e.id == arg, "pushing a copy leaves the source alone"); }
				else if (arg % 3 == 1) ok = ch->push(E{arg});
				else ok = ch->emplace(arg);
				r.ret(ok);
				break;
			}
			case TRY_PUSH: {
				bool ok;
				if (arg % 3 == 0) { E const e{arg}; ok = ch->try_push(e); CHECKM(e.id == arg, "pushing a copy leaves the source alone"); }
				else if (arg % 3 == 1) ok = ch->try_push(E{arg});
				else ok = ch->try_emplace(arg);
				r.ret(ok);
				break;
			}
			case POP: { auto v = ch->pop(); got(v, r); break; }
			case TRY_POP: { auto v = ch->try_pop(); got(v, r); break; }
			case CLOSE: ch->close(); r.ret(1); break;
			case CLOSED: r.ret(ch->closed()); break;
		}
	}
	static void body(void *a) {
		int const t = (int) (intptr_t) a;
		for (int i = 0; i < prog[t].n; ++i) one(t, prog[t].op[i].kind, prog[t].op[i].arg);
	}
	// runs prog[1..threads) in threads and prog[0] in this one, then drains
	static void go(int threads, uint64_t cap) {
		for (int i = 0; i < 16; ++i) val[i] = i < 4 ? sym<uint8_t>("payload") : (uint8_t) i;
		{
			Chan c{cap};
			ch = &c;
			for (int t = 1; t < threads; ++t) dtl_thread(body, (void *) (intptr_t) t);
			body(nullptr);
			dtl_join_all();
			one(0, CLOSED, 0);
			do one(0, TRY_POP, 0); while (lin::log_[0][lin::cnt[0] - 1].ret);
			Spec s; s.cap = cap;
			CHECKM(lin::linearizable(s), "the history is that of a bounded queue");
			REACH("done");
		}
		CHECKM(dtl_shared(1, 0) == 0, "every element is destroyed exactly once");
	}
};
using R = Run<Elem<false>>;

// two threads with any operations, closed at any time by the main thread
// @qbound any one operation in a thread, any two in another, close at any time; every capacity; all interleavings with up to 2 preemptions (schedule points: every lock, atomic, condition variable operation)
// @tbound any two operations in each of two threads, close at any time; every capacity; all interleavings with up to 3 preemptions
// @bound 15 fixed programs of up to 3 threads plus the main thread, iteration until close, throwing element copies and moves; 8 bit payloads symbolic; notify_one wakes any of the waiters
// @topt * --preempt 3
// @parts any2 36
// @reach any2 done
HARNESS_PART(any2) {
	uint64_t const cap = sym<uint64_t>("capacity");
	int id = 1;
	for (int t = 1; t < 3; ++t) {
#ifdef THOROUGH
		R::prog[t].n = 2;
#else
		R::prog[t].n = t;
#endif
		for (int i = 0; i < R::prog[t].n; ++i) {
			int const k = i == 0 ? (int) (t == 1 ? part % 6 : part / 6) : (int) dtl_choice(6, "op");
			R::prog[t].op[i] = {k, id++};
		}
	}
	R::prog[0] = {1, {{CLOSE, 0}}};
	R::go(3, cap);
}

// programs that must finish without anybody closing the channel (a lost wake-up shows as a deadlock), and closing ones
struct Scn { int threads, cap; Prog p[4]; };
static constexpr Scn scns[] = {
	{3, 1, {{0, {}}, {3, {{PUSH, 1}, {PUSH, 2}, {PUSH, 3}}}, {3, {{POP, 0}, {POP, 0}, {POP, 0}}}}},                                // 0 one producer, one consumer
	{4, 1, {{0, {}}, {1, {{PUSH, 1}}}, {1, {{PUSH, 2}}}, {2, {{POP, 0}, {POP, 0}}}}},                                               // 1 two producers blocked on a full channel
	{4, 1, {{0, {}}, {2, {{PUSH, 1}, {PUSH, 2}}}, {1, {{POP, 0}}}, {1, {{POP, 0}}}}},                                               // 2 two consumers blocked on an empty channel
	{4, 2, {{0, {}}, {2, {{PUSH, 1}, {PUSH, 2}}}, {1, {{PUSH, 3}}}, {3, {{POP, 0}, {POP, 0}, {POP, 0}}}}},                          // 3
	{4, 1, {{1, {{CLOSE, 0}}}, {1, {{POP, 0}}}, {1, {{POP, 0}}}, {1, {{PUSH, 3}}}}},                                                // 4 closing releases everyone
	{4, 1, {{2, {{TRY_PUSH, 4}, {CLOSE, 0}}}, {1, {{PUSH, 1}}}, {1, {{PUSH, 2}}}, {1, {{POP, 0}}}}},                                // 5
	{3, 0, {{1, {{CLOSE, 0}}}, {2, {{TRY_PUSH, 1}, {PUSH, 2}}}, {2, {{TRY_POP, 0}, {POP, 0}}}}},                                    // 6 capacity 0
	{3, 1, {{3, {{PUSH, 1}, {PUSH, 2}, {CLOSE, 0}}}, {2, {{POP, 0}, {POP, 0}}}, {1, {{POP, 0}}}, {0, {}}}},                          // 7 closing while draining
	{3, 2, {{1, {{CLOSE, 0}}}, {3, {{PUSH, 1}, {PUSH, 2}, {PUSH, 3}}}, {4, {{POP, 0}, {POP, 0}, {POP, 0}, {POP, 0}}}}},             // 8
	{3, 1, {{1, {{POP, 0}}}, {2, {{PUSH, 1}, {CLOSED, 0}}}, {2, {{CLOSE, 0}, {CLOSED, 0}}}}},                                       // 9
	{3, 2, {{2, {{TRY_PUSH, 1}, {TRY_PUSH, 2}}}, {1, {{POP, 0}}}, {1, {{POP, 0}}}, {0, {}}}},                                       // 10 two elements for two waiting consumers
	{3, 2, {{2, {{PUSH, 1}, {PUSH, 2}}}, {1, {{POP, 0}}}, {1, {{POP, 0}}}, {0, {}}}},                                               // 11
	{4, 2, {{0, {}}, {1, {{TRY_PUSH, 1}}}, {1, {{PUSH, 2}}}, {2, {{POP, 0}, {POP, 0}}}}},                                           // 12
	{3, 2, {{4, {{TRY_PUSH, 1}, {TRY_PUSH, 2}, {POP, 0}, {POP, 0}}}, {1, {{PUSH, 3}}}, {1, {{PUSH, 4}}}, {0, {}}}},                 // 13 two slots for two waiting producers
	{3, 2, {{4, {{TRY_PUSH, 1}, {TRY_PUSH, 2}, {TRY_POP, 0}, {TRY_POP, 0}}}, {1, {{PUSH, 3}}}, {1, {{PUSH, 4}}}, {0, {}}}},         // 14
};
// @parts programs 15
// @reach programs done
HARNESS_PART(programs) {
	Scn const &s = scns[part];
	for (int t = 0; t < 4; ++t) R::prog[t] = s.p[t];
	R::go(s.threads, s.cap);
}

// iterating until the channel is closed and empty
// @reach iterate done
HARNESS(iterate) {
	using E = Elem<false>;
	for (int i = 0; i < 8; ++i) val[i] = sym<uint8_t>("payload");
	static dtl::channel<E> *ch;
	static int seen[2][4], n[2];
	n[0] = n[1] = 0;
	{
		dtl::channel<E> c{1};
		ch = &c;
		dtl_thread([](void *) {
			for (auto &e : *ch) { CHECKM(e.payload == val[e.id], "the popped element is one that was pushed"); seen[0][n[0]++] = e.id; }
		}, nullptr);
		dtl_thread([](void *) {
			auto it = ch->begin();
			while (!(it == ch->end())) { seen[1][n[1]++] = it->id; auto j = it; CHECKM((*j).id == it->id, "a copied iterator keeps the element"); if (n[1] == 1) it++; else ++it; }
		}, nullptr);
		CHECKM(c.push(E{1}) && c.push(E{2}) && c.emplace(3), "an open channel accepts elements");
		c.close();
		CHECKM(c.closed() && !c.push(E{4}) && !c.try_emplace(5), "a closed channel accepts nothing");
		dtl_join_all();
		CHECKM(n[0] + n[1] == 3, "every element is delivered exactly once");
		int sum = 0;
		for (int k = 0; k < 2; ++k) for (int i = 0; i < n[k]; ++i) { sum += 1 << seen[k][i]; if (i) CHECKM(seen[k][i] > seen[k][i - 1], "elements come in order"); }
		CHECKM(sum == 2 + 4 + 8, "every element is delivered exactly once");
		CHECKM(!c.pop().has_value() && !c.try_pop().has_value() && c.begin() == c.end(), "a closed and drained channel is at its end");
		REACH("done");
	}
	CHECKM(dtl_shared(1, 0) == 0, "every element is destroyed exactly once");
}

// an element whose copy or move throws: nothing is added or removed, and nobody else is left waiting
// @reach throwing_push done thrown
HARNESS(throwing_push) {
	using E = Elem<true>;
	static dtl::channel<E> *ch;
	{
		dtl::channel<E> c{1};
		ch = &c;
		c.emplace(1);
		dtl_thread([](void *) { E const e{8}; bool t = false; try { (void) ch->push(e); } catch (boom const &) { t = true; } CHECKM(t, "the element's exception comes out"); REACH("thrown"); }, nullptr);
		dtl_thread([](void *) { CHECKM(ch->emplace(2), "an open channel accepts elements"); }, nullptr);
		auto a = c.pop();
		CHECKM(a.has_value() && a->id == 1, "the first element comes first");
		auto b = c.pop();
		CHECKM(b.has_value() && b->id == 2, "a failed push adds nothing");
		dtl_join_all();
		CHECKM(!c.try_pop().has_value(), "a failed push adds nothing");
		REACH("done");
	}
	CHECKM(dtl_shared(1, 0) == 0, "every element is destroyed exactly once");
}
// @reach throwing_pop done thrown
HARNESS(throwing_pop) {
	using E = Elem<true>;
	static dtl::channel<E> *ch;
	static int got[2], failed;
	got[0] = got[1] = failed = 0;
	{
		dtl::channel<E> c{2};
		ch = &c;
		dtl_shared(2, 1); // one move of an element with an id of at least 4 throws
		for (int k = 0; k < 2; ++k)
			dtl_thread([](void *a) {
				int const k = (int) (intptr_t) a;
				try { auto v = ch->pop(); got[k] = v.has_value() ? v->id : -1; } catch (boom const &) { REACH("thrown"); }
			}, (void *) (intptr_t) k);
		CHECKM(c.emplace(4), "an open channel accepts elements");
		dtl_join_all();
		CHECKM((got[0] == 4) + (got[1] == 4) == 1, "an element whose removal failed stays available");
		CHECKM(!c.try_pop().has_value(), "an element is delivered once");
		REACH("done");
	}
	CHECKM(dtl_shared(1, 0) == 0, "every element is destroyed exactly once");
}

// iterators of two channels: assigned and moved ones go on with the channel they came from
HARNESS(assigned) {
	using E = Elem<false>;
	for (int i = 0; i < 8; ++i) val[i] = sym<uint8_t>("payload");
	{
		dtl::channel<E> a{2}, b{2};
		CHECK(a.push(E{1}) && b.push(E{2}));
		auto i = a.begin(), j = b.begin();
		CHECK(a.push(E{3}) && b.push(E{4}));
		a.close(); b.close();
		CHECKM((i->id == 1) & (j->id == 2), "an iterator starts with the first element");
		unsigned const how = dtl_choice(4, "how");
		if (how == 0) { i = j; CHECKM((i->id == 2) & (j->id == 2), "an assigned iterator refers to an equal element"); ++i; CHECKM(i->id == 4, "an assigned iterator goes on with the channel of the other"); ++i; CHECKM((i == b.end()) && !b.pop(), "the channel ends"); CHECKM(a.pop()->id == 3, "the other channel is left alone"); }
		else if (how == 1) { i = std::move(j); CHECKM(i->id == 2, "an assigned iterator refers to an equal element"); ++i; CHECKM(i->id == 4, "an assigned iterator goes on with the channel of the other"); ++i; CHECKM((i == b.end()) && !b.pop(), "the channel ends"); CHECKM(a.pop()->id == 3, "the other channel is left alone"); }
		else if (how == 2) { using std::swap; swap(i, j); CHECKM((i->id == 2) & (j->id == 1), "swapped iterators"); ++j; CHECKM((j->id == 3) & (i->id == 2), "swapped iterators go on with their channels"); ++i; CHECKM(i->id == 4, "swapped iterators go on with their channels"); ++i; ++j; CHECKM((i == a.end()) & (j == b.end()), "the channels end"); }
		else { auto k{std::move(i)}; auto const &self = k; k = self; CHECKM(k->id == 1, "self assignment changes nothing"); ++k; CHECKM(k->id == 3, "a moved iterator goes on with its channel"); OBS(k->payload); }
	}
	CHECKM(dtl_shared(1, 0) == 0, "every element is destroyed exactly once");
}
