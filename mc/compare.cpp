// Comparison (C11), hashing (C12), streaming (C21).
// C11: all relation tables on small value sets x alternatives x values x storage states x operators.
#define MC_MAIN
#include "matrix.hpp"
#include <boost/functional/hash.hpp>
#include <unordered_set>
#include <unordered_map>
#include <map>
#include <iomanip>
#include <iostream>
using namespace mc;
#ifndef MC_PART
#define MC_PART 0
#endif

static int eqt[3][3], ltt[3][3];
static std::size_t ht[4];
struct Call { char op; int id; const void *a, *b; };
static std::vector<Call> calls;
static int throw_at;     // 0 never, 1: content operators throw
struct Boom {};
struct Truth { bool b; explicit Truth(bool x) : b(x) {} operator bool() const { return b; } };   // a content operator need not return bool

template <int ID, bool Nothrow, class B> struct REL : Core {
    enum { TID = ID + 40 * 64 };
    explicit REL(int v) : Core(TID, v, false) {}
    REL(const REL& o) noexcept(Nothrow) : Core(CopyTag(), TID, o, Nothrow) {}
    REL& operator=(const REL& o) noexcept(Nothrow) { cassign(o, Nothrow); return *this; }
    friend B operator==(const REL& a, const REL& b) { note('=', a, b); return B(eqt[a.val][b.val] != 0); }
    friend B operator<(const REL& a, const REL& b) { note('<', a, b); return B(ltt[a.val][b.val] != 0); }
    friend std::size_t hash_value(const REL& a) { touch(&a, TID, "hash"); Call c = { 'h', ID, &a, 0 }; calls.push_back(c); if (throw_at) throw Boom(); return ht[a.val]; }
    static void note(char op, const REL& a, const REL& b) { touch(&a, TID, "comparison"); touch(&b, TID, "comparison"); Call c = { op, ID, &a, &b }; calls.push_back(c); if (throw_at) throw Boom(); }
};
typedef REL<0, false, bool> A0; typedef REL<1, true, bool> A1; typedef REL<2, false, Truth> A2; typedef REL<3, false, bool> A3;
typedef boost::variant<A0, A1, boost::recursive_wrapper<A2> > VP;                        // failed assignments keep content outside
struct Fb { friend bool operator==(Fb, Fb) { return true; } friend bool operator<(Fb, Fb) { return false; } friend std::size_t hash_value(Fb) { return 3; } };
typedef boost::variant<boost::recursive_wrapper<A0>, A1, Fb> VF;                // fallback
typedef boost::make_variant_over<boost::mpl::list<A3, A2, A0> >::type VO;
typedef boost::variant<VP, A3> VN;                                                        // nested

// the alternative and value a variant is built with
template <class V> struct Def;
template <> struct Def<VP> { enum { N = 3 }; static const char* name() { return "P"; } static int id(int alt) { return alt; } static const bool plain[];
    static VP* make(int alt, int v) { return alt == 0 ? new VP(A0(v)) : alt == 1 ? new VP(A1(v)) : new VP(A2(v)); }
    static bool bomb(VP& v) { return v.which() == 0 ? drive_to_heap<VP, A2>(v, 1) : drive_to_heap<VP, A0>(v, 1); } };
template <> struct Def<VF> { enum { N = 2 }; static const char* name() { return "F"; } static int id(int alt) { return alt; }
    static VF* make(int alt, int v) { return alt == 0 ? new VF(A0(v)) : new VF(A1(v)); } static bool bomb(VF&) { return false; } };
template <> struct Def<VO> { enum { N = 3 }; static const char* name() { return "O"; } static int id(int alt) { return alt == 0 ? 3 : alt == 1 ? 2 : 0; }
    static VO* make(int alt, int v) { return alt == 0 ? new VO(A3(v)) : alt == 1 ? new VO(A2(v)) : new VO(A0(v)); }
    static bool bomb(VO& v) { return v.which() == 0 ? drive_to_heap<VO, A0>(v, 1) : drive_to_heap<VO, A3>(v, 1); } };

template <class V> V* prepared(int alt, int v, int st) {
    std::unique_ptr<V> p(Def<V>::make(alt, v));
    if (st == HEAP) { if (!Def<V>::bomb(*p)) return 0; }
    else if (st == ASSIGNED) { std::unique_ptr<V> q(Def<V>::make((alt + 1) % Def<V>::N, 1)); *q = *p; p.swap(q); }
    return p.release();
}
struct Content : boost::static_visitor<const void*> { template <class T> const void* operator()(const T& t) const { return &t; } };
template <class V> const void* addr(const V& v) { Content c; return v.apply_visitor(c); }

static const char* opname[] = { "==", "!=", "<", ">", "<=", ">=" };
template <class V> bool apply(int op, const V& a, const V& b) {
    static_assert(std::is_same<decltype(a == b), bool>::value && std::is_same<decltype(a < b), bool>::value && std::is_same<decltype(a >= b), bool>::value, "result type");
    switch (op) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a > b; case 4: return a <= b; default: return a >= b; }
}
// what the operators have to give, from the alternatives and the relation tables alone
inline bool want(int op, int altA, int a, int altB, int b) {
    bool eq = altA == altB && eqt[a][b];
    bool ab = altA != altB ? altA < altB : ltt[a][b];
    bool ba = altA != altB ? altB < altA : ltt[b][a];
    switch (op) { case 0: return eq; case 1: return !eq; case 2: return ab; case 3: return ba; case 4: return !ba; default: return !ab; }
}
template <class V> void compare(Suite& s, const V& x, int ax, int vx, const V& y, int ay, int vy, const char* how) {
    for (int op = 0; op < 6; ++op) {
        ++s.calls; calls.clear();
        bool threw = false, r = false;
        try { r = apply(op, x, y); } catch (const Boom&) { threw = true; }
        bool flip = op == 3 || op == 4;
        const void* l = addr(flip ? y : x); const void* rr = addr(flip ? x : y);
        MC_CHECK(threw == (throw_at && ax == ay), "%s: operator%s %s an exception of the content's operator", how, opname[op], threw ? "raised" : "swallowed");
        if (ax != ay) MC_CHECK(calls.empty(), "%s: operator%s compared contents of different alternatives", how, opname[op]);
        else {
            MC_CHECK(!calls.empty(), "%s: operator%s did not ask the contents", how, opname[op]);
            for (std::size_t i = 0; i < calls.size(); ++i) {
                MC_CHECK(calls[i].op == (op < 2 ? '=' : '<'), "%s: operator%s used the content's %c", how, opname[op], calls[i].op);
                MC_CHECK(calls[i].id == Def<V>::id(ax), "%s: operator%s used another type's operator", how, opname[op]);
                MC_CHECK(calls[i].a == l && calls[i].b == rr, "%s: operator%s passed wrong operands", how, opname[op]);
            }
        }
        if (!threw) {
            bool w = want(op, ax, vx, ay, vy);
            MC_CHECK(r == w, "%s: (alternative %d value %d) %s (alternative %d value %d) gave %d; eq=%d lt=%d gt=%d", how, ax, vx, opname[op], ay, vy, int(r), eqt[vx][vy], ltt[vx][vy], ltt[vy][vx]);
        }
    }
}
// every pair of prepared states; one case per pair, all relation tables inside
template <class V> void tables(Suite& s, int nv, bool product) {
    static const int sts[] = { INPLACE, HEAP, ASSIGNED };
    for (int ax = 0; ax < Def<V>::N; ++ax) for (int sx = 0; sx < 3; ++sx) for (int ay = 0; ay < Def<V>::N; ++ay) for (int sy = 0; sy < 3; ++sy) {
        std::string id = std::string(Def<V>::name()) + std::to_string(nv) + "/" + std::to_string(ax) + st_name(sts[sx]) + "," + std::to_string(ay) + st_name(sts[sy]);
        s.run(id, [&] {
            for (int vx = 0; vx < nv; ++vx) for (int vy = 0; vy < nv; ++vy) {
                std::unique_ptr<V> x(prepared<V>(ax, vx, sts[sx])), y(prepared<V>(ay, vy, sts[sy]));
                if (!x || !y) return;
                s.state(id + std::to_string(vx) + std::to_string(vy));
                int bits = nv * nv, lim = 1 << bits;
                for (int e = 0; e < lim; ++e) for (int l = 0; l < (product ? lim : 1); ++l) {
                    int ll = product ? l : (e * 37 + 11) % lim;
                    for (int k = 0; k < bits; ++k) { eqt[k / nv][k % nv] = e >> k & 1; ltt[k / nv][k % nv] = ll >> k & 1; }
                    if (nv == 3 && ax != ay && e % 37) continue;     // contents are not consulted
                    compare(s, *x, ax, vx, *y, ay, vy, id.c_str());
                    if (sx == sy && ax == ay && vx == vy) compare(s, *x, ax, vx, *x, ax, vx, "the same object");
                    if (W().errcat) return;
                }
                throw_at = 1; compare(s, *x, ax, vx, *y, ay, vy, "throwing operator"); throw_at = 0;
            }
        });
    }
}
// nested variants: alternative (outer), alternative (inner), value
void nested(Suite& s) {
    s.run("nested", [&] {
        for (int e = 0; e < 16; ++e) for (int l = 0; l < 16; ++l) {
            for (int k = 0; k < 4; ++k) { eqt[k / 2][k % 2] = e >> k & 1; ltt[k / 2][k % 2] = l >> k & 1; }
            for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) {
                std::unique_ptr<VP> pi(Def<VP>::make(i % 3, i / 3 % 2)), pj(Def<VP>::make(j % 3, j / 3 % 2));
                VN x = i < 6 ? VN(*pi) : VN(A3(i - 6)), y = j < 6 ? VN(*pj) : VN(A3(j - 6));
                bool eq = (i < 6) == (j < 6) && (i < 6 ? *pi == *pj : eqt[i - 6][j - 6]);
                bool lt = (i < 6) != (j < 6) ? i < 6 : i < 6 ? *pi < *pj : ltt[i - 6][j - 6];
                s.calls += 4;
                MC_CHECK((x == y) == eq && (x != y) == !eq, "nested equality");
                MC_CHECK((x < y) == lt && (y > x) == lt && (x >= y) == !lt && (y <= x) == !lt, "nested ordering");
            }
        }
    });
}
// six alternatives of built-in types, with NaN
void builtins(Suite& s) {
    typedef boost::variant<double, int, char, std::string, boost::recursive_wrapper<double*>, boost::blank> VB;
    double d = 0, nan = std::strtod("nan", 0);
    std::vector<VB> vs; std::vector<double> num;
    double vals[] = { nan, -1, 0, 2 };
    for (double v : vals) vs.push_back(VB(v));
    for (int v = -1; v < 2; ++v) vs.push_back(VB(v));
    for (char c = 'a'; c < 'd'; ++c) vs.push_back(VB(c));
    vs.push_back(VB(std::string())); vs.push_back(VB(std::string("a"))); vs.push_back(VB(std::string("b")));
    vs.push_back(VB((double*)0)); vs.push_back(VB(&d)); vs.push_back(VB(boost::blank()));
    s.run("builtins", [&] {
        for (std::size_t i = 0; i < vs.size(); ++i) for (std::size_t j = 0; j < vs.size(); ++j) {
            const VB &x = vs[i], &y = vs[j];
            int wi = i < 4 ? 0 : i < 7 ? 1 : i < 10 ? 2 : i < 13 ? 3 : i < 15 ? 4 : 5, wj = j < 4 ? 0 : j < 7 ? 1 : j < 10 ? 2 : j < 13 ? 3 : j < 15 ? 4 : 5;
            bool eq, lt, gt;
            if (wi != wj) { eq = false; lt = wi < wj; gt = wi > wj; }
            else if (wi == 0) { eq = vals[i] == vals[j]; lt = vals[i] < vals[j]; gt = vals[i] > vals[j]; }
            else if (wi == 5) { eq = true; lt = gt = false; }
            else { eq = i == j; lt = i < j; gt = i > j; }
            s.calls += 6;
            MC_CHECK(x.which() == wi && y.which() == wj, "which");
            MC_CHECK((x == y) == eq && (x != y) == !eq, "builtins %d %d equality", int(i), int(j));
            MC_CHECK((x < y) == lt && (x > y) == gt && (x <= y) == !gt && (x >= y) == !lt, "builtins %d %d order", int(i), int(j));
        }
    });
}

// trivially copyable contents whose relations are not those of their bytes
struct Pod { char c; int i; friend bool operator==(const Pod& a, const Pod& b) { return a.i == b.i; } friend bool operator<(const Pod& a, const Pod& b) { return a.i > b.i; } friend std::size_t hash_value(const Pod& a) { return std::size_t(a.i); } };
enum Odd { O1 = 1, O2, O3 }; inline bool operator==(Odd a, Odd b) { return (int(a) & 1) == (int(b) & 1); } inline bool operator<(Odd a, Odd b) { return (int(a) & 1) < (int(b) & 1); } inline std::size_t hash_value(Odd a) { return std::size_t(int(a) & 1); }
void pods(Suite& s) {
    typedef boost::variant<Pod, float, Odd, boost::recursive_wrapper<Pod*> > VB;
    Pod ps[] = { { 'a', 1 }, { 'b', 1 }, { 'a', 2 } }; float fs[] = { 0.0f, -0.0f, 1.0f, -1.0f }; Odd os[] = { O1, O2, O3 };
    for (int i = 0; i < 10; ++i) for (int j = 0; j < 10; ++j) for (int st = 0; st < 2; ++st) s.run("pods/" + std::to_string(i) + "," + std::to_string(j) + (st ? "/assigned" : ""), [&] {
        struct Mk { static VB of(int k, Pod* p, float* f, Odd* o) { return k < 3 ? VB(p[k]) : k < 7 ? VB(f[k - 3]) : VB(o[k - 7]); } };
        VB x = Mk::of(i, ps, fs, os), y = Mk::of(j, ps, fs, os); if (st) { VB z(&ps[0]); z = x; x = y; y = z; x.swap(y); }
        int wi = i < 3 ? 0 : i < 7 ? 1 : 2, wj = j < 3 ? 0 : j < 7 ? 1 : 2; bool eq = false, lt = wi < wj, gt = wj < wi;
        if (wi == wj) switch (wi) { case 0: eq = ps[i] == ps[j]; lt = ps[i] < ps[j]; gt = ps[j] < ps[i]; break; case 1: eq = fs[i - 3] == fs[j - 3]; lt = fs[i - 3] < fs[j - 3]; gt = fs[j - 3] < fs[i - 3]; break; default: eq = os[i - 7] == os[j - 7]; lt = os[i - 7] < os[j - 7]; gt = os[j - 7] < os[i - 7]; }
        s.calls += 8; s.state("pods" + std::to_string(i));
        MC_CHECK(x.which() == wi && y.which() == wj, "which");
        MC_CHECK((x == y) == eq && (x != y) == !eq, "equality");
        MC_CHECK((x < y) == lt && (y < x) == gt && (x > y) == gt && (x <= y) == !gt && (x >= y) == !lt, "order");
        if (eq) MC_CHECK(hash_value(x) == hash_value(y) && boost::hash<VB>()(x) == boost::hash<VB>()(y), "equal variants hash differently");
        s.outcomes.insert(std::to_string(i) + std::to_string(j) + (eq ? "=" : lt ? "<" : ">"));
    });
}
// ---- hashing ----------------------------------------------------------------------------------------------
template <class V> void hashes(Suite& s) {
    static const std::size_t hv[] = { 0, 1, 2, std::size_t(-1), std::size_t(1) << 63, 0x9e3779b9 };
    static const int sts[] = { INPLACE, HEAP, MOVEDFROM, ASSIGNED };
    s.run(std::string("hash/") + Def<V>::name(), [&] {
        std::map<std::pair<int, std::size_t>, std::size_t> table;
        std::map<std::size_t, std::set<std::size_t> > per_content;
        for (int pass = 0; pass < 2; ++pass) for (int alt = 0; alt < Def<V>::N; ++alt) for (int v = 0; v < 3; ++v) for (int st = 0; st < 4; ++st) for (std::size_t h : hv) {
            std::unique_ptr<V> p(sts[st] == MOVEDFROM ? Def<V>::make(alt, v) : prepared<V>(alt, v, sts[st]));
            if (!p) continue;
            if (sts[st] == MOVEDFROM) { V w(std::move(*p)); }       // REL is copied, so the value stays
            std::unique_ptr<V> cp(new V(*p));
            ht[0] = ht[1] = ht[2] = h;
            s.state(std::string(Def<V>::name()) + std::to_string(alt) + st_name(sts[st]) + std::to_string(h));
            calls.clear();
            std::size_t a = hash_value(*p), b = boost::hash<V>()(*p), c = std::hash<V>()(*p), d = hash_value(*cp);
            s.calls += 4;
            for (std::size_t i = 0; i < calls.size(); ++i) MC_CHECK(calls[i].id == Def<V>::id(alt) && (calls[i].a == addr(*p) || calls[i].a == addr(*cp)), "hash of another object");
            MC_CHECK(a == b && a == c, "hash_value, boost::hash and std::hash differ");
            MC_CHECK(a == d, "a copy hashes differently");
            std::pair<int, std::size_t> key(alt, h);
            if (!table.count(key)) table[key] = a;
            MC_CHECK(table[key] == a, "alternative %d, content hash %llu: hash depends on more than that (storage %s)", alt, (unsigned long long)h, st_name(sts[st]));
            throw_at = 1; bool threw = false; try { hash_value(*p); } catch (const Boom&) { threw = true; } throw_at = 0;
            MC_CHECK(threw, "exception of the content's hash was swallowed");
        }
        for (auto& t : table) per_content[t.first.second].insert(t.second);
        for (auto& t : per_content) MC_CHECK(t.second.size() == std::size_t(Def<V>::N), "different alternatives with content hash %llu hash equally", (unsigned long long)t.first);
        for (int alt = 0; alt < Def<V>::N; ++alt) {
            std::set<std::size_t> d; for (std::size_t h : hv) d.insert(table[std::make_pair(alt, h)]);
            MC_CHECK(d.size() > 1, "the content takes no part in the hash of alternative %d", alt);
        }
    });
}
// twenty alternatives whose contents hash alike
template <int I> struct HK { std::size_t h; explicit HK(std::size_t x) : h(x) {} bool operator==(const HK& o) const { return h == o.h; } friend std::size_t hash_value(const HK& k) { return k.h; } };
typedef boost::variant<HK<0>, HK<1>, HK<2>, HK<3>, HK<4>, HK<5>, HK<6>, HK<7>, HK<8>, HK<9>, HK<10>, HK<11>, HK<12>, HK<13>, HK<14>, HK<15>, HK<16>, HK<17>, HK<18>, HK<19> > V20;
template <int I> struct Mk20 { static void go(std::vector<V20>& v, std::size_t h) { Mk20<I - 1>::go(v, h); v.push_back(V20(HK<I>(h))); } };
template <> struct Mk20<-1> { static void go(std::vector<V20>&, std::size_t) {} };
void hash_many(Suite& s) {
    static const std::size_t hv[] = { 0, 1, 2, 3, 7, 8, 16, 255, 0x9e3779b9, std::size_t(1) << 32, std::size_t(1) << 63, std::size_t(-1), std::size_t(-2) };
    for (std::size_t h : hv) s.run("hash/20/" + std::to_string(h), [&] {
        std::vector<V20> v; Mk20<19>::go(v, h);
        for (std::size_t i = 0; i < v.size(); ++i) {
            s.state("V20 " + std::to_string(i)); s.calls += 3;
            std::size_t a = hash_value(v[i]);
            MC_CHECK(a == boost::hash<V20>()(v[i]) && a == std::hash<V20>()(v[i]), "hash_value, boost::hash and std::hash differ for alternative %d", int(i));
            for (std::size_t j = 0; j < i; ++j) MC_CHECK(a != hash_value(v[j]), "alternatives %d and %d with content hash %llu hash equally", int(j), int(i), (unsigned long long)h);
            V20 w(v[(i + 1) % 20]); w = v[i];
            MC_CHECK(hash_value(w) == a, "the hash of alternative %d depends on the history", int(i));
        }
    });
}
// real types: equal variants hash equally whatever built them; unordered containers find them
void hash_real(Suite& s) {
    typedef boost::make_recursive_variant<int, std::string, std::vector<boost::recursive_variant_>, Fb, char, long>::type R;
    s.run("hash/real", [&] {
        std::vector<R> vs;
        vs.push_back(R(1)); vs.push_back(R(2)); vs.push_back(R(std::string("a"))); vs.push_back(R(std::string(60, 'b'))); vs.push_back(R(Fb())); vs.push_back(R('a')); vs.push_back(R(1L)); vs.push_back(R('\1'));
        std::size_t n = vs.size();
        for (std::size_t i = 0; i < n; ++i) { std::vector<R> c(1, vs[i]); vs.push_back(R(c)); c.push_back(vs[0]); vs.push_back(R(c)); }
        vs.push_back(R(std::vector<R>()));
        std::unordered_set<R> us; std::unordered_map<R, int, boost::hash<R> > um;
        for (std::size_t i = 0; i < vs.size(); ++i) { us.insert(vs[i]); um[vs[i]] = int(i); }
        MC_CHECK(us.size() == vs.size() && um.size() == vs.size(), "distinct values were merged");
        for (std::size_t i = 0; i < vs.size(); ++i) for (std::size_t j = 0; j < vs.size(); ++j) {
            R x(vs[j]); x = vs[i]; R y(std::move(x)); s.calls += 2;
            MC_CHECK(hash_value(y) == hash_value(vs[i]) && us.count(y) && um[y] == int(i), "hash depends on history");
            if (vs[i] == vs[j]) MC_CHECK(hash_value(vs[i]) == hash_value(vs[j]), "equal variants hash differently");
        }
        s.state("real");
        int hits = 0;
        for (int k = 0; k < 3; ++k) { R a(1), b(1L), c('\1'); std::size_t h[3] = { hash_value(a), hash_value(b), hash_value(c) }; if (h[0] != h[1] && h[1] != h[2] && h[0] != h[2]) ++hits; }
        MC_CHECK(hits == 3, "1, 1L and '\\1' hash equally");
        // a non-hashed wrapper of the same content hash gives the documented combination with the alternative
        MC_CHECK(hash_value(R(5)) != hash_value(R(6)), "different ints hash equally");
    });
}

// ---- streaming ---------------------------------------------------------------------------------------------
template <class C> struct Lit;
template <> struct Lit<char> { static const char* s() { return "text"; } };
template <> struct Lit<wchar_t> { static const wchar_t* s() { return L"text"; } };
static int inserted; static const void* ins_addr;
// content with a user insertion operator that uses the width, sets a flag, or throws
template <int ID> struct Str : Core {
    enum { TID = ID + 50 * 64 };
    explicit Str(int v) : Core(TID, v, false) {}
    Str(const Str& o) noexcept(false) : Core(CopyTag(), TID, o, false) {}
    Str& operator=(const Str& o) { cassign(o, false); return *this; }
    template <class C, class T> friend std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& o, const Str& s) {
        touch(&s, TID, "<<"); ++inserted; ins_addr = &s;
        if (throw_at) throw Boom();
        o << o.widen('S') << ID << o.widen(':') << s.val;
        if (s.val == 2) o.setstate(std::ios_base::failbit);
        if (s.val == 1) o << std::hex << std::setfill(o.widen('#'));
        return o;
    }
};
// an insertion operator for a derived stream must not be chosen by a base reference, and char pointers print as text
typedef boost::variant<Str<0>, Str<1>, boost::recursive_wrapper<Str<2> > > VS;
template <class C> struct Mix { typedef boost::variant<int, double, bool, C, std::basic_string<C>, const C*, Str<3>, boost::recursive_wrapper<unsigned>, VS, const void*> type; };

template <class C> std::string narrow(const std::basic_string<C>& s) { std::string r; for (C c : s) r += (c > 0 && c < 127) ? char(c) : '?'; return r; }
template <class C> struct Setup { int flags; int width; int prec; C fill; bool bad; bool exc; };
template <class C> void prep(std::basic_ostringstream<C>& o, int k) {
    typedef std::ios_base I;
    if (k & 1) o.setf(I::hex, I::basefield), o.setf(I::showbase);
    if (k & 2) o.width(9), o.fill(o.widen('*'));
    if (k & 4) o.setf(I::left, I::adjustfield), o.setf(I::boolalpha);
    if (k & 8) o.precision(3), o.setf(I::scientific, I::floatfield), o.setf(I::showpos);
    if (k & 16) o.setstate(I::failbit);
    if (k & 32) o.setf(I::unitbuf), o.setf(I::uppercase);
}
template <class C> std::string dump(std::basic_ostringstream<C>& o) {
    return narrow(o.str()) + "|" + std::to_string(int(o.flags())) + "|" + std::to_string(int(o.width())) + "|" + std::to_string(int(o.precision())) + "|" + std::to_string(int(o.fill())) + "|" + std::to_string(int(o.rdstate()));
}
// counts what reaches the buffer besides characters
template <class C> struct Buf : std::basic_stringbuf<C> { int syncs, seeks; Buf() : syncs(0), seeks(0) {}
    int sync() override { ++syncs; return 0; }
    typename Buf::pos_type seekoff(typename Buf::off_type o, std::ios_base::seekdir d, std::ios_base::openmode m) override { ++seeks; return std::basic_stringbuf<C>::seekoff(o, d, m); } };
template <class C, class V, class T> void stream_one(Suite& s, V& v, const T& ref, const char* name) {
    for (int k = 0; k < 64; ++k) for (int twice = 0; twice < 2; ++twice) {
        if (k & 16 && twice) continue;
        std::basic_ostringstream<C> a, b; Buf<C> ba, bb; prep(a, k); prep(b, k);
        if (k & 1) { static_cast<std::basic_ios<C>&>(a).rdbuf(&ba); static_cast<std::basic_ios<C>&>(b).rdbuf(&bb); prep(a, k); prep(b, k); }
        if (twice) { a.exceptions(std::ios_base::failbit); }
        std::string before((const char*)&v, sizeof v);
        bool exca = false, excb = false;
        ++s.calls;
        const V& cv = v;
        if (twice) b.exceptions(std::ios_base::failbit);
        long c0 = W().copies, m0 = W().moves;
        try { std::basic_ostream<C>& r = (a << cv); MC_CHECK(&r == &a, "%s: did not return the stream", name); a << 17 << a.widen('!'); } catch (const std::ios_base::failure&) { exca = true; } catch (const Boom&) { exca = true; }
        MC_CHECK(W().copies == c0 && W().moves == m0, "%s: streaming copied content", name);
        try { b << ref; b << 17 << b.widen('!'); } catch (const std::ios_base::failure&) { excb = true; } catch (const Boom&) { excb = true; }
        MC_CHECK(exca == excb, "%s: exceptions differ", name);
        MC_CHECK((k & 32) || (ba.syncs == bb.syncs && ba.seeks == bb.seeks), "%s: flushed %d times, the content alone %d times", name, ba.syncs, bb.syncs);
        std::string da = dump(a) + narrow(ba.str()), db = dump(b) + narrow(bb.str());
        MC_CHECK(da == db, "%s: wrote %s, the content alone writes %s", name, da.c_str(), db.c_str());
        MC_CHECK(!memcmp(before.data(), (const char*)&v, sizeof v), "%s: streaming changed the variant", name);
        s.outcomes.insert(std::string(name) + da);
    }
}
template <class C> void streams(Suite& s, const char* cn) {
    typedef typename Mix<C>::type V;
    typedef std::basic_string<C> Sg;
#define S1(NAME, EXPR) s.run(std::string("stream/") + cn + NAME, [&] { auto r = EXPR; V v(r); s.state(std::string(cn) + NAME); stream_one<C>(s, v, r, NAME); V w(v); stream_one<C>(s, w, r, NAME " copy"); V x(C('z')); x = std::move(w); stream_one<C>(s, x, r, NAME " assigned"); });
    S1("int", -42) S1("int0", 0) S1("double", 3.14159) S1("true", true) S1("false", false) S1("char", C('c')) S1("string", Sg(Lit<C>::s())) S1("empty", Sg()) S1("literal", Lit<C>::s()) S1("unsigned", 77u) S1("pointer", (const void*)0x1234)
#undef S1
    for (int val = 0; val < 4; ++val) for (int thr = 0; thr < 2; ++thr) {
        s.run(std::string("stream/") + cn + "user" + std::to_string(val) + (thr ? "throws" : ""), [&] { Str<3> r(val); V v(r); throw_at = thr; stream_one<C>(s, v, r, "user type"); throw_at = 0; });
        for (int st = 0; st < 2; ++st) for (int alt = 0; alt < 3; ++alt) s.run(std::string("stream/") + cn + "nested" + std::to_string(alt) + std::to_string(val) + (thr ? "throws" : "") + (st ? "kept" : ""), [&] {
            Str<0> r0(val); Str<1> r1(val); Str<2> r2(val);
            VS in = alt == 0 ? VS(r0) : alt == 1 ? VS(r1) : VS(r2);
            if (st && !(alt == 0 ? drive_to_heap<VS, Str<1> >(in, 1) : drive_to_heap<VS, Str<0> >(in, 1))) return;
            s.state(std::string(cn) + std::to_string(alt) + (st ? "kept" : ""));
            throw_at = 0; V v(in); throw_at = thr;
            if (alt == 0) { stream_one<C>(s, in, r0, "user type"); stream_one<C>(s, v, r0, "nested"); }
            else if (alt == 1) { stream_one<C>(s, in, r1, "user type"); stream_one<C>(s, v, r1, "nested"); }
            else { stream_one<C>(s, in, r2, "user type"); stream_one<C>(s, v, r2, "nested"); }
            inserted = 0; throw_at = 0; std::basic_ostringstream<C> o; o << in; Content c;
            MC_CHECK(inserted == 1 && ins_addr == in.apply_visitor(c), "the inserted object is not the content");
            throw_at = 0;
        });
    }
    s.run(std::string("stream/") + cn + "blank", [&] {
        boost::variant<boost::blank, int> b; std::basic_ostringstream<C> x, y; ++s.calls; x << b; y << boost::blank(); MC_CHECK(x.str() == y.str() && x.good(), "blank");
    });
}

int main(int argc, char** argv) {
#ifdef MC_DEEP
    const bool deep = true;
#else
    const bool deep = false;
#endif
    run_matrix("compare", argc, argv, [&](Suite& s) {
#if MC_PART == 0
        tables<VP>(s, 2, true); nested(s); builtins(s); pods(s);
#elif MC_PART == 1
        tables<VO>(s, 2, true); tables<VF>(s, 2, true); tables<VP>(s, 3, deep);
#elif MC_PART == 2
        hashes<VP>(s); hashes<VF>(s); hashes<VO>(s); hash_many(s); hash_real(s); pods(s);
#elif MC_PART == 3
        streams<char>(s, "char ");
#elif MC_PART == 4
        streams<wchar_t>(s, "wchar_t ");
#endif
    });
    return 0;
}
