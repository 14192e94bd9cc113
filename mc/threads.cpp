// Threads (C19): every schedule, up to a preemption bound, of two or three threads that run short sequences of
// operations on their own variants and on one shared const variant. A baton serialises the threads, switching at
// content operations, visitor calls and allocations; it is invisible to ThreadSanitizer, which therefore reports
// every pair of unordered conflicting accesses. Results are compared with the sequential ones.
#define MC_MAIN
#define MC_THREADS
#include "matrix.hpp"
#include <boost/variant/recursive_variant.hpp>
#include <boost/variant/multivisitors.hpp>
#include <boost/variant/polymorphic_get.hpp>
#include <boost/variant/visitor_ptr.hpp>
#include <boost/functional/hash.hpp>
#include <functional>
#include <thread>
#include <sched.h>
using namespace mc;
#ifndef MC_PART
#define MC_PART 0
#endif
static int g_slices = 1, g_slice = 0, g_preempt = 2;
#define NOTSAN __attribute__((no_sanitize("thread"), noinline))

// ---- the scheduler -----------------------------------------------------------------------------------------
struct Sched {
    volatile int turn, n, done[4], nprefix, npos, preempts, bound;
    struct Dec { int chosen, alt; } dec[4096];        // alt: the next choice to try there, -1 none
    int prefix[4096];
};
static Sched S;
NOTSAN int next_choice(int cur, int after, int preempts) {   // choices at a point: stay first, then the others in order; -1 none left
    // enumeration order: cur (if alive), then each other alive thread
    int order[5], k = 0;
    if (!S.done[cur]) order[k++] = cur;
    if (S.done[cur] || preempts < S.bound) for (int i = 0; i < S.n; ++i) if (i != cur && !S.done[i]) order[k++] = i;
    if (after < 0) return k ? order[0] : -1;
    for (int i = 0; i + 1 < k; ++i) if (order[i] == after) return order[i + 1];
    return -1;
}
NOTSAN void wait_turn(int me) { int spins = 0; while (S.turn != me) { if (++spins > 200) sched_yield(); else __builtin_ia32_pause(); } asm volatile("mfence" ::: "memory"); }
NOTSAN void decide(int me) {
    int pos = S.npos, c;
    if (pos >= 4096) abort();
    if (pos < S.nprefix) c = S.prefix[pos]; else c = next_choice(me, -1, S.preempts);
    S.dec[pos].chosen = c; S.dec[pos].alt = c < 0 ? -1 : next_choice(me, c, S.preempts);
    S.npos = pos + 1;
    if (c < 0) return;
    if (c != me && !S.done[me]) S.preempts = S.preempts + 1;
    if (c != me) { asm volatile("mfence" ::: "memory"); S.turn = c; }
}
NOTSAN void yield_now() { int me = g_me - 1; if (me < 0) return; decide(me); if (S.turn != me) wait_turn(me); }
NOTSAN void finish(int me) { S.done[me] = 1; decide(me); }
NOTSAN void start(int n, const std::vector<int>& p, int bound) { S.n = n; S.npos = 0; S.preempts = 0; S.bound = bound; S.nprefix = int(p.size()); for (std::size_t i = 0; i < p.size(); ++i) S.prefix[i] = p[i]; for (int i = 0; i < 4; ++i) S.done[i] = 0; S.turn = -1; }
NOTSAN void go_first() { int c = S.nprefix ? S.prefix[0] : 0; S.dec[0].chosen = c; S.dec[0].alt = c + 1 < S.n ? c + 1 : -1; S.npos = 1; asm volatile("mfence" ::: "memory"); S.turn = c; }
NOTSAN bool backtrack(std::vector<int>& p) {
    for (int i = S.npos - 1; i >= 0; --i) if (S.dec[i].alt >= 0) { p.clear(); for (int k = 0; k < i; ++k) p.push_back(S.dec[k].chosen); p.push_back(S.dec[i].alt); return true; }
    return false;
}
NOTSAN int used() { return S.npos; }

// ---- operations ----------------------------------------------------------------------------------------------
struct Pb { int q; Pb(int x) : q(x) {} };
struct Pd : Pb { TT<5> t; explicit Pd(int x) : Pb(x + 10), t(x) {} friend bool operator==(const Pd& a, const Pd& b) { return a.t == b.t; } friend bool operator<(const Pd& a, const Pd& b) { return a.t < b.t; } friend std::size_t hash_value(const Pd& a) { return hash_value(a.t); } template <class O> friend O& operator<<(O& o, const Pd& a) { o << "Pd"; o << a.t; return o; } };
typedef boost::variant<TT<0>, TN<1>, std::string, boost::recursive_wrapper<NN<2> >, Pd> V;
struct Node; typedef boost::variant<TT<0>, boost::recursive_wrapper<Node> > Tree;
struct Node { Tree l, r; Node(const Tree& a, const Tree& b) : l(a), r(b) {} friend bool operator==(const Node& a, const Node& b) { return a.l == b.l && a.r == b.r; } friend bool operator<(const Node& a, const Node& b) { return a.l < b.l || (!(b.l < a.l) && a.r < b.r); } friend std::size_t hash_value(const Node& n) { std::size_t s = 3; boost::hash_combine(s, n.l); boost::hash_combine(s, n.r); return s; } };
inline void yp() { if (W().yield_hook) W().yield_hook(); }
std::string shw(const Core& c) { yp(); return std::to_string(c.tid / 64) + ":" + std::to_string(c.val); }
std::string shw(const std::string& s) { yp(); return s; }
std::string shw(const Pd& p) { yp(); return "P" + std::to_string(p.t.val) + "," + std::to_string(p.q); }
std::string shw(const Node& n);
std::string shw(const boost::blank&) { yp(); return "blank"; }
std::string shw(int i) { yp(); return std::to_string(i); }
std::string shw(char i) { yp(); return std::to_string(int(i)); }
typedef boost::make_recursive_variant<TT<0>, std::vector<boost::recursive_variant_> >::type Rec;
std::string shw(const std::vector<Rec>& v);
struct Shw : boost::static_visitor<std::string> { template <class T> std::string operator()(const T& t) const { return shw(t); } };
std::string show(const V& v) { Shw s; return std::to_string(v.which()) + "=" + boost::apply_visitor(s, v); }
std::string show(const Tree& v) { Shw s; return std::to_string(v.which()) + "=" + boost::apply_visitor(s, v); }
std::string shw(const Node& n) { return "(" + show(n.l) + show(n.r) + ")"; }
struct Shw2 : boost::static_visitor<std::string> { template <class A, class B> std::string operator()(const A& a, const B& b) const { return shw(a) + "+" + shw(b); } };
struct Shw3 : boost::static_visitor<std::string> { template <class A, class B, class C> std::string operator()(const A& a, const B& b, const C& c) const { return shw(a) + "+" + shw(b) + "+" + shw(c); } };
struct Gen { template <class T> std::string operator()(const T& t) const { return "g" + shw(t); } typedef std::string result_type; };
struct Mut : boost::static_visitor<int> { int n; Mut() : n(0) {} template <class T> int operator()(T&) { yp(); return ++n; } };
V mkv(int a, int v) { switch (a) { case 0: return V(TT<0>(v)); case 1: return V(TN<1>(v)); case 2: return V(std::string(v == 1 ? 5 : 40, char('a' + v))); case 3: return V(NN<2>(v)); default: return V(Pd(v)); } }
std::string from_tt(const TT<0>& t) { return "f" + shw(t); }

// further variant types: wider target, fallback, all-nothrow, move-only, placeholder recursion, references
typedef boost::variant<int, Pd, std::string, boost::recursive_wrapper<NN<2> >, TN<1>, TT<0>, char> Wide;
typedef boost::variant<TT<0>, boost::blank, TN<1> > Fb;
typedef boost::variant<NN<2>, int, NN<3> > Nt;
typedef boost::variant<MO<0>, TT<0> > Mo;
typedef boost::variant<const std::string&, const TT<0>&> Rf;
template <class W> std::string showw(const W& v) { Shw s; return std::to_string(v.which()) + "=" + boost::apply_visitor(s, v); }
std::string shw(const std::vector<Rec>& v) { std::string r = "["; for (std::size_t i = 0; i < v.size(); ++i) r += showw(v[i]); return r + "]"; }
struct Shw4 : boost::static_visitor<std::string> { template <class A, class B, class C, class D> std::string operator()(const A& a, const B& b, const C& c, const D& d) const { return shw(a) + "+" + shw(b) + "+" + shw(c) + shw(d); } };
struct Void : boost::static_visitor<> { std::string* o; template <class A> void operator()(const A& a) const { *o += shw(a); } template <class A, class B> void operator()(const A& a, const B& b) const { *o += shw(a) + shw(b); } };
struct RefV : boost::static_visitor<const void*> { template <class A> const void* operator()(const A& a) const { yp(); return &a; } };
struct Ctx { const V* sh; const V* sh2; const Tree* tr; int alt; };   // alt: what the thread's own variants hold
struct Op { const char* name; bool shared; bool more; std::function<std::string(const Ctx&)> run; };
std::vector<Op> make_ops() {
    std::vector<Op> o;
#define MORE false
#define OP(n, s, ...) { Op x = { n, s, MORE, [](const Ctx& c) -> std::string { (void)c; __VA_ARGS__ } }; o.push_back(x); }
    // on the shared const variant
    OP("visit", true, return show(*c.sh);)
    OP("visit-generic", true, Gen g; return boost::apply_visitor(g, *c.sh);)
    OP("visit-two", true, Shw2 s; return boost::apply_visitor(s, *c.sh, *c.sh2);)
    OP("visit-three", true, Shw3 s; return boost::apply_visitor(s, *c.sh, *c.sh2, *c.sh);)
    OP("visit-delayed", true, Shw s; return boost::apply_visitor(s)(*c.sh);)
    OP("visit-counting", true, Mut m; boost::apply_visitor(m, *c.sh); boost::apply_visitor(m, *c.sh2); return std::to_string(m.n);)
    OP("get", true, std::string r; r += boost::get<TT<0> >(c.sh) ? "0" : ""; yp(); r += boost::get<TN<1> >(c.sh) ? "1" : ""; yp(); r += boost::get<std::string>(c.sh) ? "2" : ""; yp(); r += boost::get<NN<2> >(c.sh) ? "3" : ""; return r + (boost::relaxed_get<long>(c.sh) ? "?" : "");)
    OP("get-reference", true, std::string r; try { r = shw(boost::get<TT<0> >(*c.sh)); } catch (const boost::bad_get& e) { yp(); r = e.what(); } try { r += shw(boost::get<std::string>(*c.sh)); } catch (const boost::bad_get& e) { yp(); r += e.what(); } return r;)
    OP("polymorphic_get", true, const Pb* p = boost::polymorphic_relaxed_get<Pb>(c.sh); yp(); std::string r = p ? std::to_string(p->q) : "none"; try { yp(); r += std::to_string(boost::polymorphic_get<Pb>(*c.sh).q); } catch (const boost::bad_polymorphic_get& e) { r += e.what(); } return r;)
    OP("equal", true, std::string r; r += *c.sh == *c.sh2 ? "=" : "#"; r += *c.sh == *c.sh ? "=" : "#"; r += *c.sh != *c.sh2 ? "#" : "="; return r;)
    OP("less", true, std::string r; r += *c.sh < *c.sh2 ? "<" : "-"; r += *c.sh2 < *c.sh ? ">" : "-"; r += *c.sh <= *c.sh2 ? "l" : "-"; return r;)
    OP("hash", true, boost::hash<V> h; std::size_t a = h(*c.sh); yp(); std::size_t b = h(*c.sh2); return std::to_string(a) + "," + std::to_string(b);)
    OP("stream", true, std::ostringstream s; s << *c.sh << "|" << *c.sh2; return s.str();)
    OP("copy", true, V v(*c.sh); std::string r = show(v); V w(v); return r + show(w);)
    OP("assign-from", true, V v(mkv(c.alt, 1)); v = *c.sh; std::string r = show(v); v = *c.sh2; return r + show(v);)
    OP("which-type", true, std::string r = std::to_string(c.sh->which()); yp(); r += c.sh->type() == typeid(std::string) ? "s" : "-"; yp(); return r + (c.sh->empty() ? "E" : "");)
    OP("tree-copy", true, Tree t(*c.tr); std::string r = show(t); t = *c.tr; return r + show(t);)
    OP("tree-compare", true, Tree t(*c.tr); std::string r = t == *c.tr ? "=" : "#"; boost::hash<Tree> h; r += h(t) == h(*c.tr) ? "=" : "#"; r += t < *c.tr ? "<" : "-"; return r;)
    // on variants of the thread's own
#if MC_PART == 4
#undef MORE
#define MORE true
    OP("convert", true, Wide w(*c.sh); std::string r = showw(w); Wide x(c.alt); x = *c.sh; r += showw(x); x = *c.sh2; return r + showw(x);)
    OP("visit-four", true, Shw4 s; typedef boost::variant<TT<0>, std::string> S2; S2 a(TT<0>(1)), b(std::string("b")); return boost::apply_visitor(s, a, b, a, b);)
    OP("visit-delayed-two", true, Shw2 s; return boost::apply_visitor(s)(*c.sh, *c.sh2);)
    OP("visit-void", true, std::string r; Void v; v.o = &r; boost::apply_visitor(v, *c.sh); boost::apply_visitor(v, *c.sh, *c.sh2); return r;)
    OP("visit-address", true, RefV v; const void* p = boost::apply_visitor(v, *c.sh); const void* q = boost::apply_visitor(v, *c.sh); return p == q ? "same" : "other";)
#if __cplusplus >= 201402L
    OP("visit-lambda", true, auto f = [](const auto& a) { return shw(a); }; auto g = [](const auto& a, const auto& b) { return shw(a) + shw(b); }; std::string r = boost::apply_visitor(f, *c.sh); return r + boost::apply_visitor(g, *c.sh, *c.sh2);)
#endif
    OP("order", true, std::string r; r += *c.sh > *c.sh2 ? ">" : "-"; r += *c.sh >= *c.sh2 ? "g" : "-"; std::less<V> l; r += l(*c.sh, *c.sh) ? "<" : "-"; return r;)
    OP("std-hash", true, std::hash<V> h; std::size_t a = h(*c.sh); yp(); std::size_t b = h(*c.sh2); return std::to_string(a) + "," + std::to_string(b);)
    OP("references", true, const std::string* s = boost::get<std::string>(c.sh); static const std::string other("other"); Rf r(s ? *s : other); Rf q(r); std::string o = showw(q); o += &boost::get<const std::string&>(q) == (s ? s : &other) ? "same" : "copy"; return o;)
    OP("nested", true, typedef boost::variant<int, V> N; N n(*c.sh); N m(n); const V* p = boost::get<V>(&m); return p ? show(*p) : "none";)
#endif
#undef MORE
#define MORE false
    OP("construct", false, V v(mkv(c.alt, 1)); return show(v);)
    OP("assign-other-type", false, std::string r; V v(mkv(c.alt, 1)); for (int a = 0; a < 5; ++a) { v = mkv((c.alt + a) % 5, 2); r += show(v); } return r;)
    OP("assign-copy", false, V v(mkv(c.alt, 1)), w(mkv(c.alt, 2)), x(mkv((c.alt + 1) % 5, 2)); v = w; std::string r = show(v); v = x; return r + show(v);)
    OP("assign-value", false, V v(mkv(c.alt, 1)); TT<0> t(2); v = t; std::string r = show(v); v = std::string("q"); r += show(v); TN<1> n(1); v = std::move(n); return r + show(v);)
    OP("swap", false, V v(mkv(c.alt, 1)), w(mkv((c.alt + 1) % 5, 2)), x(mkv(c.alt, 2)); v.swap(w); std::string r = show(v) + show(w); swap(w, x); return r + show(w) + show(x);)
    OP("move", false, V v(mkv(c.alt, 1)); V w(std::move(v)); V x(mkv((c.alt + 2) % 5, 2)); x = std::move(w); return show(x) + std::to_string(w.which());)
    OP("failing-assignment", false, std::string r; V v(mkv(c.alt, 1)); V x(mkv((c.alt + 1) % 5, 2)); for (int k = 0; k < 4; ++k) { try { Arm a(&k, 1); v = x; r += "."; } catch (const Injected&) { r += "!"; } W().armed = false; r += show(v); } return r;)
    OP("visitor_ptr", false, V v(mkv(c.alt, 1)); try { return boost::apply_visitor(boost::visitor_ptr(from_tt), v); } catch (const boost::bad_visit& e) { yp(); return e.what(); })
    OP("visit-rvalue", false, Shw s; return boost::apply_visitor(s, mkv(c.alt, 2));)
    OP("tree-build", false, Tree a(TT<0>(1)); Tree b(Node(a, a)); Tree d(Node(b, a)); b = d; a = Node(b, d); return show(a) + show(b);)
#if MC_PART == 4
#undef MORE
#define MORE true
    OP("get-rvalue", false, V v(mkv(c.alt, 1)); try { std::string s(boost::get<std::string>(std::move(v))); yp(); return s + std::to_string(v.which()); } catch (const boost::bad_get& e) { yp(); return e.what(); })
    OP("fallback", false, std::string r; for (int k = 0; k < 4; ++k) { Fb v(TN<1>(1)); Fb x(TT<0>(2)); try { Arm a(&k, 1); v = x; r += "."; } catch (const Injected&) { r += "!"; } W().armed = false; r += showw(v); Fb y(v); y.swap(x); r += showw(y) + showw(x); } return r;)
    OP("nothrow", false, Nt v(NN<2>(1)); Nt w(NN<3>(2)); v = 5; std::string r = showw(v); v = w; r += showw(v); v.swap(w); boost::variant<int, TT<0> > d; w = NN<2>(2); return r + showw(v) + showw(w) + showw(d);)
    OP("move-only", false, Mo v(MO<0>(1)); Mo w(std::move(v)); std::string r = showw(w); Mo x(TT<0>(2)); x = std::move(w); r += showw(x); Mo y(MO<0>(2)); x.swap(y); return r + showw(x) + showw(y);)
    OP("kept", false, std::string r; V v(mkv(0, 1)); drive_to_heap<V, TT<0> >(v, 2); W().armed = false; r = show(v); V w(v); r += show(w); V x(mkv(c.alt, 2)); x = v; r += show(x); v.swap(w); r += show(v); w = std::move(v); r += show(w); v = mkv(1, 2); return r + show(v);)
    OP("placeholder", false, Rec a(TT<0>(1)); std::vector<Rec> l; l.push_back(a); l.push_back(a); Rec b(l); l.push_back(b); a = l; Rec d(a); return showw(a) + showw(d) + (a == d ? "=" : "#");)
#endif
    return o;
}
// ---- exploration ---------------------------------------------------------------------------------------------
struct Body { std::vector<int> ops; Ctx c; };
std::vector<Op> OPS;
std::string exec(const Body& b) { std::string r; for (std::size_t i = 0; i < b.ops.size(); ++i) r += OPS[b.ops[i]].run(b.c) + ";"; return r; }
long schedules = 0, points_max = 0;
void thread_main(int me, const Body* b, std::string* out) {
    g_me = me + 1;
    wait_turn(me);
    World& w = W(); w.nlive = w.nblk = 0; w.errcat = 0; w.armed = false; w.alloc_faults = false; w.yield_hook = yield_now;
    try { *out = exec(*b); } catch (const std::exception& e) { *out = std::string("exception ") + e.what(); } catch (...) { *out = "exception"; }
    w.yield_hook = 0;
    finish(me);
}
void program(Suite& su, const std::string& id, const std::vector<Body>& bs, int bound) {
    su.run(id, [&] {
        std::vector<std::string> want; for (std::size_t i = 0; i < bs.size(); ++i) want.push_back(exec(bs[i]));
        std::vector<int> prefix;
        for (;;) {
            std::vector<std::string> got(bs.size());
            start(int(bs.size()), prefix, bound);
            { std::vector<std::thread> ts; for (std::size_t i = 0; i < bs.size(); ++i) ts.emplace_back(thread_main, int(i), &bs[i], &got[i]);
              go_first(); for (std::size_t i = 0; i < ts.size(); ++i) ts[i].join(); }
            ++schedules; ++su.calls; shared()->progress++;
            if (used() > points_max) points_max = used();
            for (std::size_t i = 0; i < bs.size(); ++i) if (got[i] != want[i]) {
                std::string sch; for (int k = 0; k < used(); ++k) if (S.dec[k].chosen >= 0) sch += char('0' + S.dec[k].chosen);
                MC_CHECK(false, "thread %d gave %s, alone it gives %s; schedule %s", int(i), got[i].c_str(), want[i].c_str(), sch.c_str());
            }
            if (W().errcat || !backtrack(prefix)) break;
        }
        su.state(id); su.outcomes.insert(id + want[0]);
    });
}
int main(int argc, char** argv) {
    for (int i = 1; i + 3 < argc; ++i) if (std::string(argv[i]) == "--slice") { g_slice = atoi(argv[i + 1]); g_slices = atoi(argv[i + 2]); g_preempt = atoi(argv[i + 3]); }
    run_matrix("threads", argc, argv, [](Suite& s) {
        OPS = make_ops();
        std::vector<V*> in, kept; for (int a = 0; a < 5; ++a) { in.push_back(new V(mkv(a, 1))); V* k = new V(mkv(a, 1)); drive_to_heap<V, TT<0> >(*k, 2); kept.push_back(k); }
        W().armed = false; W().nblk = 0;
        Tree leaf(TT<0>(1)); Tree tree(Node(Node(leaf, leaf), leaf));
        int nsh = 0; for (std::size_t i = 0; i < OPS.size(); ++i) nsh += OPS[i].shared;
        auto ctx = [&](int a, int k) { Ctx c; c.sh = k ? kept[a] : in[a]; c.sh2 = in[(a + 1) % 5]; c.tr = &tree; c.alt = a; return c; };
        auto nm = [&](const std::vector<Body>& bs) { std::string n; for (std::size_t i = 0; i < bs.size(); ++i) { n += i ? " | " : ""; for (std::size_t k = 0; k < bs[i].ops.size(); ++k) n += std::string(k ? "," : "") + OPS[bs[i].ops[k]].name; n += "(" + std::to_string(bs[i].c.alt) + ")"; } return n; };
#if MC_PART == 0      // every pair of operations: all alternatives of the shared variant
        for (int k = 0; k < 2; ++k) for (int a = 0; a < 5; ++a) for (int i = 0; i < nsh; ++i) for (int j = i; j < nsh; ++j) {
            if (k && a != 0 && a != 4) continue;   // alternatives that can be kept after a failure
            if ((i + j + a) % g_slices != g_slice) continue;
            std::vector<Body> b(2); b[0].ops.assign(1, i); b[1].ops.assign(1, j); b[0].c = b[1].c = ctx(a, k);
            program(s, "shared " + std::to_string(k) + " " + nm(b), b, g_preempt);
        }
#elif MC_PART == 1    // own variants, all operations against all
        for (int i = 0; i < int(OPS.size()); ++i) for (int j = i < nsh ? nsh : i; j < int(OPS.size()); ++j) for (int a = 0; a < 5; ++a) for (int e = 0; e < 2; ++e) {
            if ((i + j + a) % g_slices != g_slice) continue;
            std::vector<Body> b(2); b[0].ops.assign(1, i); b[1].ops.assign(1, j); b[0].c = ctx(a, 0); b[1].c = ctx((a + e) % 5, 0);
            program(s, "own " + nm(b), b, g_preempt);
        }
#elif MC_PART == 2    // three threads
        for (int i = 0; i < int(OPS.size()); ++i) for (int j = i; j < int(OPS.size()); ++j) {
            if ((i + j) % g_slices != g_slice) continue;
            std::vector<Body> b(3); b[0].ops.assign(1, i); b[1].ops.assign(1, j); b[2].ops.assign(1, i); int a = (i + j) % 5; b[0].c = b[1].c = b[2].c = ctx(a, a % 4 == 0);
            program(s, "three " + nm(b), b, g_preempt);
        }
#elif MC_PART == 3    // two operations each
        for (int i = 0; i < int(OPS.size()); ++i) for (int j = 0; j < int(OPS.size()); ++j) for (int k = i; k < int(OPS.size()); k += 3) {
            if ((i + j) % g_slices != g_slice) continue;
            std::vector<Body> b(2); b[0].ops.push_back(i); b[0].ops.push_back(j); b[1].ops.push_back(k); b[1].ops.push_back(i); int a = (i + j + k) % 5; b[0].c = b[1].c = ctx(a, a % 4 == 0);
            program(s, "sequence " + nm(b), b, g_preempt);
        }
#elif MC_PART == 4    // the further operations against each other and against the others
        std::vector<int> more; for (int i = 0; i < int(OPS.size()); ++i) if (OPS[i].more) more.push_back(i);
        for (std::size_t m = 0; m < more.size(); ++m) for (int j = 0; j < int(OPS.size()); ++j) for (int a = 0; a < 5; ++a) {
            const int i = more[m];
            if (OPS[j].more ? j < i : (i + j + a) % 5) continue;
            if ((i + j + a) % g_slices != g_slice) continue;
            std::vector<Body> b(2); b[0].ops.assign(1, i); b[1].ops.assign(1, j); b[0].c = b[1].c = ctx(a, a % 4 == 0 && (i + j) % 2);
            program(s, "further " + nm(b), b, g_preempt);
        }
#endif
        emit("{\"stats\":\"threads-schedules\",\"states\":0,\"transitions\":0,\"schedules\":%ld,\"longest\":%ld}\n", schedules, points_max);
        W().nblk = 0;
    });
    return 0;
}
