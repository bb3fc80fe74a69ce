// MT
// exchange_channel: every interleaving of producers, consumers and closers.
// @qbound any one operation in a thread, any two in another, close at any time; all interleavings with up to 2 preemptions (schedule points: every lock, atomic, condition variable operation)
// @tbound any two operations in each of two threads, close at any time; all interleavings with up to 3 preemptions
// @bound 7 fixed programs of up to 3 threads plus the main thread, iteration until close, throwing element moves; 8 bit payloads symbolic; notify_one wakes any of the waiters
// @topt * --preempt 3
#include "lin.hpp"
#include <dice/template-library/exchange_channel.hpp>

namespace dtl = dice::template_library;

enum { PUSH, POP, TRY_POP, CLOSE, CLOSED };
static uint8_t val[16]; // the payload of every element
struct boom {};
template<bool Throws>
struct Elem {
	int id; uint8_t payload;
	explicit Elem(int i) noexcept : id{i}, payload{val[i]} { dtl_shared(1, 1); }
	Elem(Elem const &o) noexcept(!Throws) : id{o.id}, payload{o.payload} { if (Throws && o.id >= 8) throw boom{}; dtl_shared(1, 1); }
	Elem(Elem &&o) noexcept(!Throws) : id{o.id}, payload{o.payload} { if (Throws && o.id >= 4 && dtl_shared(2, 0)) { dtl_shared(2, (uint64_t) -1); throw boom{}; } o.id = 0; dtl_shared(1, 1); }
	Elem &operator=(Elem &&o) noexcept { id = o.id; payload = o.payload; o.id = 0; return *this; }
	Elem &operator=(Elem const &o) noexcept = default;
	~Elem() { dtl_shared(1, (uint64_t) -1); }
};
struct Spec {
	int v = 0; bool closed = false;
	bool apply(lin::Op const &o) {
		switch (o.kind) {
			case PUSH: if (!o.ret) return closed; if (closed) return false; v = o.arg; return true;
			case POP: case TRY_POP: if (!o.ret) return v == 0 && (closed || o.kind == TRY_POP); if (v != o.ret) return false; v = 0; return true;
			case CLOSE: closed = true; return true;
			case CLOSED: return (o.ret != 0) == closed;
		}
		return false;
	}
};
struct Prog { int n; struct { int kind, arg; } op[5]; };
template<typename E>
struct Run {
	using Chan = dtl::exchange_channel<E>;
	static inline Chan *ch;
	static inline Prog prog[4];
	static void got(std::optional<E> const &v, lin::Rec &r) {
		int const id = v.has_value() ? v->id : 0;
		r.ret(id);
		if (v.has_value()) CHECKM((id > 0) & (v->payload == val[id]), "the popped element is one that was pushed");
	}
	static void one(int t, int kind, int arg) {
		lin::Rec r{t, kind, arg};
		switch (kind) {
			case PUSH: {
				bool ok;
				if (arg % 3 == 0) { E const e{arg}; ok = ch->push(e); CHECKM(e.id == arg, "pushing a copy leaves the source alone"); }
				else if (arg % 3 == 1) ok = ch->push(E{arg});
				else ok = ch->emplace(arg);
				r.ret(ok);
				break;
			}
			case POP: { auto v = ch->pop(); got(v, r); break; }
			case TRY_POP: { auto v = ch->try_pop(); got(v, r); break; }
			case CLOSE: ch->close(); r.ret(1); break;
			case CLOSED: r.ret(ch->closed()); break;
		}
	}
	static void body(void *a) {
		int const t = (int) (intptr_t) a;
		for (int i = 0; i < prog[t].n; ++i) one(t, prog[t].op[i].kind, prog[t].op[i].arg);
	}
	static void go(int threads) {
		for (int i = 0; i < 16; ++i) val[i] = i < 5 ? sym<uint8_t>("payload") : (uint8_t) i;
		{
			Chan c;
			ch = &c;
			for (int t = 1; t < threads; ++t) dtl_thread(body, (void *) (intptr_t) t);
			body(nullptr);
			dtl_join_all();
			one(0, CLOSED, 0);
			one(0, TRY_POP, 0);
			one(0, TRY_POP, 0);
			CHECKM(lin::linearizable(Spec{}), "the history is that of a slot holding the last value sent");
			REACH("done");
		}
		CHECKM(dtl_shared(1, 0) == 0, "every element is destroyed exactly once");
	}
};
using R = Run<Elem<false>>;

// two threads with any operations, closed at any time by the main thread
// @parts any2 25
// @reach any2 done
HARNESS_PART(any2) {
	int id = 1;
	for (int t = 1; t < 3; ++t) {
#ifdef THOROUGH
		R::prog[t].n = 2;
#else
		R::prog[t].n = t;
#endif
		for (int i = 0; i < R::prog[t].n; ++i) {
			int const k = i == 0 ? (int) (t == 1 ? part % 5 : part / 5) : (int) dtl_choice(5, "op");
			R::prog[t].op[i] = {k, id++};
		}
	}
	R::prog[0] = {1, {{CLOSE, 0}}};
	R::go(3);
}

// programs that must finish without anybody closing the channel (a lost wake-up shows as a deadlock), and closing ones
struct Scn { int threads; Prog p[4]; };
static constexpr Scn scns[] = {
	{3, {{0, {}}, {1, {{PUSH, 1}}}, {1, {{POP, 0}}}}},                                                          // 0
	{3, {{1, {{PUSH, 3}}}, {2, {{PUSH, 1}, {PUSH, 2}}}, {1, {{POP, 0}}}}},                                      // 1
	{4, {{1, {{CLOSE, 0}}}, {1, {{POP, 0}}}, {1, {{POP, 0}}}, {1, {{PUSH, 3}}}}},                               // 2 closing releases everyone
	{4, {{0, {}}, {2, {{PUSH, 1}, {CLOSE, 0}}}, {2, {{POP, 0}, {POP, 0}}}, {1, {{POP, 0}}}}},                   // 3
	{4, {{0, {}}, {1, {{PUSH, 1}}}, {1, {{PUSH, 2}}}, {1, {{POP, 0}}}}},                                        // 4
	{3, {{1, {{PUSH, 2}}}, {2, {{PUSH, 1}, {CLOSED, 0}}}, {3, {{CLOSE, 0}, {TRY_POP, 0}, {CLOSED, 0}}}}},       // 5
	{3, {{1, {{CLOSE, 0}}}, {3, {{PUSH, 1}, {PUSH, 2}, {PUSH, 3}}}, {4, {{POP, 0}, {TRY_POP, 0}, {POP, 0}, {POP, 0}}}}}, // 6
};
// @parts programs 7
// @reach programs done
HARNESS_PART(programs) {
	Scn const &s = scns[part];
	for (int t = 0; t < 4; ++t) R::prog[t] = s.p[t];
	R::go(s.threads);
}

// iterating until the channel is closed and empty
// @reach iterate done all
HARNESS(iterate) {
	using E = Elem<false>;
	for (int i = 0; i < 8; ++i) val[i] = sym<uint8_t>("payload");
	static dtl::exchange_channel<E> *ch;
	static int seen[2][4], n[2];
	n[0] = n[1] = 0;
	{
		dtl::exchange_channel<E> c;
		ch = &c;
		dtl_thread([](void *) {
			for (auto &e : *ch) { CHECKM(e.payload == val[e.id], "the popped element is one that was pushed"); seen[0][n[0]++] = e.id; }
		}, nullptr);
		dtl_thread([](void *) {
			auto it = ch->begin();
			while (!(it == ch->end())) { seen[1][n[1]++] = it->id; auto j = it; CHECKM((*j).id == it->id, "a copied iterator keeps the element"); if (n[1] == 1) it++; else ++it; }
		}, nullptr);
		CHECKM(c.push(E{1}) && c.push(E{2}) && c.emplace(3), "an open channel accepts elements");
		c.close();
		CHECKM(c.closed() && !c.push(E{4}) && !c.emplace(5), "a closed channel accepts nothing");
		dtl_join_all();
		int mask = 0;
		for (int k = 0; k < 2; ++k) for (int i = 0; i < n[k]; ++i) {
			CHECKM(!(mask >> seen[k][i] & 1), "every element is delivered at most once");
			mask |= 1 << seen[k][i];
			if (i) CHECKM(seen[k][i] > seen[k][i - 1], "elements come in order");
		}
		CHECKM((mask & ~14) == 0 && (mask & 8), "the last value sent is delivered");
		if (mask == 14) REACH("all");
		CHECKM(!c.pop().has_value() && !c.try_pop().has_value() && c.begin() == c.end(), "a closed and drained channel is at its end");
		REACH("done");
	}
	CHECKM(dtl_shared(1, 0) == 0, "every element is destroyed exactly once");
}

// an element whose move throws: it stays in the channel, and nobody else is left waiting
// @reach throwing_pop done thrown
HARNESS(throwing_pop) {
	using E = Elem<true>;
	static dtl::exchange_channel<E> *ch;
	static int got[2];
	got[0] = got[1] = 0;
	{
		dtl::exchange_channel<E> c;
		ch = &c;
		dtl_shared(2, 1); // one move of an element with an id of at least 4 throws
		for (int k = 0; k < 2; ++k)
			dtl_thread([](void *a) {
				int const k = (int) (intptr_t) a;
				try { auto v = ch->pop(); got[k] = v.has_value() ? v->id : -1; } catch (boom const &) { REACH("thrown"); }
			}, (void *) (intptr_t) k);
		CHECKM(c.emplace(4), "an open channel accepts elements");
		dtl_join_all();
		CHECKM((got[0] == 4) + (got[1] == 4) == 1, "an element whose removal failed stays available");
		CHECKM(!c.try_pop().has_value(), "an element is delivered once");
		bool t = false;
		E const e{8};
		try { (void) c.push(e); } catch (boom const &) { t = true; }
		CHECKM(t && !c.try_pop().has_value(), "a failed push adds nothing");
		CHECKM(c.push(E{1}) && c.pop()->id == 1, "the channel works after a failure");
		REACH("done");
	}
	CHECKM(dtl_shared(1, 0) == 0, "every element is destroyed exactly once");
}

// iterators of two channels: assigned and moved ones go on with the channel they came from
HARNESS(assigned) {
	using E = Elem<false>;
	for (int i = 0; i < 8; ++i) val[i] = sym<uint8_t>("payload");
	{
		dtl::exchange_channel<E> a, b;
		CHECK(a.push(E{1}) && b.push(E{2}));
		auto i = a.begin(), j = b.begin();
		CHECK(a.push(E{3}) && b.push(E{4}));
		a.close(); b.close();
		CHECKM((i->id == 1) & (j->id == 2), "an iterator starts with the first element");
		unsigned const how = dtl_choice(4, "how");
		if (how == 0) { i = j; CHECKM((i->id == 2) & (j->id == 2), "an assigned iterator refers to an equal element"); ++i; CHECKM(i->id == 4, "an assigned iterator goes on with the channel of the other"); ++i; CHECKM((i == b.end()) && !b.pop(), "the channel ends"); CHECKM(a.pop()->id == 3, "the other channel is left alone"); }
		else if (how == 1) { i = std::move(j); CHECKM(i->id == 2, "an assigned iterator refers to an equal element"); ++i; CHECKM(i->id == 4, "an assigned iterator goes on with the channel of the other"); ++i; CHECKM((i == b.end()) && !b.pop(), "the channel ends"); CHECKM(a.pop()->id == 3, "the other channel is left alone"); }
		else if (how == 2) { using std::swap; swap(i, j); CHECKM((i->id == 2) & (j->id == 1), "swapped iterators"); ++j; CHECKM((j->id == 3) & (i->id == 2), "swapped iterators go on with their channels"); ++i; CHECKM(i->id == 4, "swapped iterators go on with their channels"); ++i; ++j; CHECKM((i == a.end()) & (j == b.end()), "the channels end"); }
		else { auto k{std::move(i)}; auto const &self = k; k = self; CHECKM(k->id == 1, "self assignment changes nothing"); ++k; CHECKM(k->id == 3, "a moved iterator goes on with its channel"); OBS(k->payload); }
	}
	CHECKM(dtl_shared(1, 0) == 0, "every element is destroyed exactly once");
}
