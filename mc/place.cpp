// Where content lies (C18): every ordered list of two and three types out of a set of sizes and alignments, with
// and without a nothrow default-constructible alternative; every alternative, reached in every way.
#define MC_MAIN
#include "matrix.hpp"
#include <cstddef>
using namespace mc;
#ifndef MC_PART
#define MC_PART 0
#endif
static int boom; struct Bang {};

// size S, alignment A, copy and move may throw
template <int ID, int S, int A> struct T {
    alignas(A) unsigned char b[S];
    explicit T(int v) { memset(b, v, S); }
    T(const T& o) noexcept(false) { if (boom && --boom == 0) throw Bang(); memcpy(b, o.b, S); }
    T& operator=(const T& o) noexcept(false) { if (boom && --boom == 0) throw Bang(); memcpy(b, o.b, S); return *this; }
    ~T() { memset(b, 0xEE, S); }
    bool is(int v) const { for (int i = 0; i < S; ++i) if (b[i] != v) return false; return true; }
};
// the same, but nothing throws
template <int ID, int S, int A> struct Q {
    alignas(A) unsigned char b[S];
    explicit Q(int v) { memset(b, v, S); }
    Q(const Q& o) noexcept { memcpy(b, o.b, S); }
    Q& operator=(const Q& o) noexcept { memcpy(b, o.b, S); return *this; }
    ~Q() { memset(b, 0xEE, S); }
    bool is(int v) const { for (int i = 0; i < S; ++i) if (b[i] != v) return false; return true; }
};
struct Fall { Fall() noexcept {} Fall(const Fall&) noexcept {} explicit Fall(int) noexcept {} bool is(int) const { return true; } };
struct Where : boost::static_visitor<> { const void** p; std::size_t* a; std::size_t* n; bool* ok; int v; template <class X> void operator()(const X& x) const { *p = std::addressof(x); *a = alignof(X); *n = sizeof(X); *ok = x.is(v); } };
template <class V> struct Room { void* p; Room() { std::size_t a = alignof(V) < sizeof(void*) ? sizeof(void*) : alignof(V); if (posix_memalign(&p, a, sizeof(V) + 16)) abort(); memset(p, 0xCD, sizeof(V) + 16); }
    ~Room() { free(p); } bool intact() const { const unsigned char* q = (const unsigned char*)p + sizeof(V); for (int i = 0; i < 16; ++i) if (q[i] != 0xCD) return false; return true; } };
// inplace: 1 must lie inside, 0 may lie elsewhere
template <class V> void at(const V& v, int which, int val, int inplace, const char* what) {
    const void* p = 0; std::size_t a = 1, n = 0; bool ok = false; Where w; w.p = &p; w.a = &a; w.n = &n; w.ok = &ok; w.v = val;
    boost::apply_visitor(w, v);
    MC_CHECKC(VALUE, v.which() == which && ok, "%s: another value", what);
    const char* b = (const char*)&v; const char* q = (const char*)p;
    bool in = q >= b && q + n <= b + sizeof(V);
#ifdef __cpp_aligned_new
    const bool aligned_new = true;
#else
    const bool aligned_new = a <= alignof(std::max_align_t);      // before C++17 plain new knows no more
#endif
    MC_CHECKC(PLACE, (!in && !aligned_new) || reinterpret_cast<std::uintptr_t>(p) % a == 0, "%s: content at %p is not aligned to %d", what, p, int(a));
    MC_CHECKC(PLACE, in || !inplace, "%s: content does not lie in the variant", what);
    MC_CHECKC(PLACE, in || q + n <= b || q >= b + sizeof(V), "%s: content lies partly in the variant", what);
    MC_CHECKC(PLACE, alignof(V) >= (in ? a : 1), "%s: the variant is less aligned than its content", what);
}
template <class X> struct Quiet { enum { value = std::is_nothrow_copy_constructible<X>::value }; };
template <class V, class X, class Y> void two(Suite& s, const char* mode, int ia, int ib, int i, int j, bool fallback) {
    std::string id = std::string(mode) + "/" + std::to_string(ia) + "," + std::to_string(ib) + "/" + std::to_string(i) + std::to_string(j);
    s.run(id, [&] {
        Room<V> ra, rb, rc; boom = 0; int kept = 0, dflt = 0; long& allocs = W().allocs;
        { const X x(1); const Y y(2);
          Arm arm(0, 0);
          V& v = *new (ra.p) V(x); V& w = *new (rb.p) V(y); V& z = *new (rc.p) V(v); at(v, i, 1, 1, "construction"); at(w, j, 2, 1, "construction"); at(z, i, 1, 1, "copy"); z.~V();
          MC_CHECKC(PLACE, !allocs, "construction allocated memory");
          v = w; at(v, j, 2, 1, "assignment"); v = x; at(v, i, 1, 1, "assignment of a value"); v = V(y); at(v, j, 2, 1, "assignment of an rvalue"); v = x; swap(v, w); at(v, j, 2, 1, "swap"); at(w, i, 1, 1, "swap"); swap(v, w); at(v, i, 1, 1, "swap"); at(w, j, 2, 1, "swap");
          MC_CHECKC(PLACE, !allocs || !(fallback || (Quiet<X>::value && Quiet<Y>::value)), "assignment allocated memory");
          for (int k = 1; k < 6; ++k) {
              bool threw = false; boom = k; try { v = y; } catch (const Bang&) { threw = true; } boom = 0;
              if (!threw) { at(v, j, 2, 1, "assignment"); break; }
              ++s.calls; ++(v.which() == i ? kept : dflt);
              if (v.which() != i) { MC_CHECKC(VALUE, fallback, "failed assignment changed the alternative"); v = x; at(v, i, 1, 1, "assignment after a failure"); continue; }
              at(v, i, 1, fallback || Quiet<X>::value, "failed assignment");
              { V cp(v); at(cp, i, 1, 1, "copy of a variant that kept its content"); }
              { V o(y); o = v; at(o, i, 1, 1, "assignment from a variant that kept its content"); }
              MC_CHECKC(PLACE, ra.intact(), "memory behind the variant was overwritten");
              v = y; at(v, j, 2, 1, "assignment after a failure"); v = x; at(v, i, 1, 1, "assignment after a failure");
          }
          MC_CHECKC(PLACE, !allocs || !fallback, "a variant with a nothrow default-constructible alternative allocated memory");
          w.~V(); v.~V(); }
        MC_CHECKC(PLACE, ra.intact() && rb.intact() && rc.intact(), "memory behind the variant was overwritten");
        s.calls += 20; s.state(id); if (kept) s.state(id + " kept"); if (dflt) s.state(id + " default"); s.outcomes.insert(id + " " + std::to_string(sizeof(V)) + " " + std::to_string(alignof(V)));
    });
}
template <int K> struct Dim; 
template <> struct Dim<0> { enum { S = 1, A = 1 }; }; template <> struct Dim<1> { enum { S = 3, A = 1 }; }; template <> struct Dim<2> { enum { S = 4, A = 2 }; }; template <> struct Dim<3> { enum { S = 12, A = 4 }; };
template <> struct Dim<4> { enum { S = 8, A = 8 }; }; template <> struct Dim<5> { enum { S = 16, A = 16 }; }; template <> struct Dim<6> { enum { S = 32, A = 32 }; }; template <> struct Dim<7> { enum { S = 64, A = 64 }; };
enum { NDIM = 8 };
template <int ID, int K> struct TK { typedef T<ID, Dim<K>::S, Dim<K>::A> type; };
template <int ID, int K> struct QK { typedef Q<ID, Dim<K>::S, Dim<K>::A> type; };
template <int A, int B> void combos(Suite& s) {
    typedef typename TK<0, A>::type X; typedef typename TK<1, B>::type Y; typedef typename QK<2, B>::type Z;
    typedef boost::variant<X, Y> V; two<V, X, Y>(s, "throw,throw", A, B, 0, 1, false); two<V, Y, X>(s, "throw,throw", A, B, 1, 0, false);
    typedef boost::variant<X, Z> U; two<U, X, Z>(s, "throw,nothrow", A, B, 0, 1, false); two<U, Z, X>(s, "throw,nothrow", A, B, 1, 0, false);
    typedef boost::variant<X, Y, Fall> F; two<F, X, Y>(s, "throw,throw,fallback", A, B, 0, 1, true); two<F, Y, X>(s, "throw,throw,fallback", A, B, 1, 0, true);
}
template <int A, int B, int C> void triples(Suite& s) {
    typedef typename TK<0, A>::type X; typedef typename TK<1, B>::type Y; typedef typename TK<2, C>::type Z;
    typedef boost::variant<X, Y, Z> V; two<V, X, Z>(s, ("triple" + std::to_string(C)).c_str(), A, B, 0, 2, false); two<V, Z, Y>(s, ("triple" + std::to_string(C)).c_str(), A, B, 2, 1, false); two<V, Y, X>(s, ("triple" + std::to_string(C)).c_str(), A, B, 1, 0, false);
}
template <int A, int B> struct Each { static void run(Suite& s) {
#ifdef MC_SECOND
    triples<A, MC_SECOND, B>(s);
#else
    combos<A, B>(s);
#endif
    Each<A, B + 1>::run(s); } };
template <int A> struct Each<A, NDIM> { static void run(Suite&) {} };
#if MC_PART == 0 && !defined(MC_SECOND)
struct In : boost::static_visitor<bool> { const char* b; std::size_t n; In(const void* v, std::size_t k) : b((const char*)v), n(k) {} template <class X> bool operator()(const X& x) const { const char* p = (const char*)std::addressof(x); return p >= b && p + sizeof(X) <= b + n; } };
// the placeholder behind a pointer needs no wrapper, nor does anything the placeholder does not occur in
template <class V, class X> void inside(Suite& s, const char* id, const X& x) {
    s.run(id, [&] { s.state(id); long& allocs = W().allocs; Arm arm(0, 0); V v(x); ++s.calls; MC_CHECKC(PLACE, !allocs, "construction allocated memory"); MC_CHECKC(PLACE, boost::apply_visitor(In(&v, sizeof v), v), "content does not lie in the variant");
        V w(v); v = w; w = V(3); w = v; MC_CHECKC(PLACE, !allocs && boost::apply_visitor(In(&w, sizeof w), w), "content does not lie in the variant"); });
}
void recursive(Suite& s) {
    typedef boost::make_recursive_variant<int, boost::recursive_variant_*, const boost::recursive_variant_*, double, void (*)(boost::recursive_variant_), boost::recursive_variant_* const*>::type R; static R r(1);
    inside<R>(s, "recursive/0", 5); inside<R>(s, "recursive/1", &r); inside<R>(s, "recursive/2", (const R*)&r); inside<R>(s, "recursive/3", 2.5); inside<R>(s, "recursive/4", (void (*)(R))0); inside<R>(s, "recursive/5", (R* const*)0);
    typedef boost::make_recursive_variant_over<boost::mpl::list<int, boost::recursive_variant_*, double> >::type O; static O o(1);
    inside<O>(s, "recursive-over/0", 5); inside<O>(s, "recursive-over/1", &o); inside<O>(s, "recursive-over/2", 2.5);
}
#endif
int main(int argc, char** argv) {
#ifdef MC_SECOND
    std::string name = "place3_" + std::to_string(MC_PART) + "_" + std::to_string(MC_SECOND);
#else
    std::string name = "place_" + std::to_string(MC_PART);
#endif
    run_matrix(name, argc, argv, [](Suite& s) {
#if MC_PART == 0 && !defined(MC_SECOND)
        recursive(s);
#endif
        Each<MC_PART, 0>::run(s); });
    return 0;
}
