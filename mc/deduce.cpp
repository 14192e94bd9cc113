// C07/C08: a visitor without result_type (C++14). Its overloads may return different types; the result is of their
// common type and has the value (or is the object) the overload that was called returned. Every pair and triple of
// result types x alternative x visitor and variant category; the same for 2 and 3 operands.
#define MC_MAIN
#include "matrix.hpp"

#include <boost/variant.hpp>
#include <boost/variant/multivisitors.hpp>
#include <vector>
using namespace mc;
template <int I> struct A { int v; A(int i = 0) : v(i) {} };
// values that every type the common type can be represents exactly: powers of two
template <class R> struct Val;
#define VAL(T, X) template <> struct Val<T> { static T get() { return X; } static const char* name() { return #T; } };
VAL(bool, true) VAL(char, 64) VAL(short, 1 << 14) VAL(int, 1 << 30) VAL(unsigned, 1u << 31) VAL(long, 1L << 62) VAL(unsigned long long, 1ull << 63) VAL(float, 1.0f / 1073741824) VAL(double, 1e-300)
struct PB { virtual ~PB() {} int x; }; struct Pad { long q[2]; virtual ~Pad() {} }; struct PD : Pad, PB {};
static PB pb; static PD pd; static int ia, ib;
template <class R> struct Ret { static R get() { return Val<R>::get(); } typedef long double key; static key k(const R& r) { return r; } };
VAL(PB*, &pb) VAL(PD*, &pd)

template <class... T> struct Ts {};
typedef Ts<bool, char, short, int, unsigned, long, unsigned long long, float, double> All;
typedef Ts<char, int, long, double> Few;

static int called;      // which overload ran
template <class... R> struct Vis;
template <class R0, class R1> struct Vis<R0, R1> {
    R0 operator()(const A<0>&) const { called = 0; return Val<R0>::get(); }
    R1 operator()(const A<1>&) const { called = 1; return Val<R1>::get(); }
};
template <class R0, class R1, class R2> struct Vis<R0, R1, R2> {
    R0 operator()(const A<0>&) const { called = 0; return Val<R0>::get(); }
    R1 operator()(const A<1>&) const { called = 1; return Val<R1>::get(); }
    R2 operator()(const A<2>&) const { called = 2; return Val<R2>::get(); }
};
enum { FORMS = 7 };
template <class K, class X, class V> K apply(int f, X& vis, V& v) {
    const X& cvis = vis; const V& cv = v;
    switch (f) {
    case 0: return boost::apply_visitor(vis, v);
    case 1: return boost::apply_visitor(cvis, v);
    case 2: return boost::apply_visitor(X(), v);
    case 3: return boost::apply_visitor(vis, cv);
    case 4: return boost::apply_visitor(vis, std::move(v));
    case 5: return boost::apply_visitor(vis)(v);
    default: return boost::apply_visitor([&vis](auto&& x) { return vis(x); }, v);
    }
}
template <class K, class... R> struct Unary {
    static void go(Suite& s) {
        typedef typename std::conditional<sizeof...(R) == 2, boost::variant<A<0>, A<1> >, boost::variant<A<0>, A<1>, A<2> > >::type V;
        const char* names[] = { Val<R>::name()... };
        const K want[] = { K(Val<R>::get())... };
        std::string id; for (const char* n : names) id += std::string(n) + ",";
        for (int alt = 0; alt < (int)sizeof...(R); ++alt) for (int f = 0; f < FORMS; ++f) {
            std::string i = id + "/alt" + std::to_string(alt) + "/form" + std::to_string(f);
            s.state(id + std::to_string(alt)); ++s.calls;
            s.run(i, [&] {
                V v; if (alt == 1) v = A<1>(); else if (alt == 2) set2(v, std::integral_constant<bool, sizeof...(R) == 3>());
                Vis<R...> vis; called = -1;
                K got = apply<K>(f, vis, v);
                MC_CHECK(called == alt, "another overload was called");
                MC_CHECK(got == want[alt], "the result of visiting alternative %d, of type %s, lost its value on the way (the overloads return %s)", alt, names[alt], id.c_str());
            });
        }
    }
    template <class V> static void set2(V& v, std::true_type) { v = A<2>(); }
    template <class V> static void set2(V&, std::false_type) {}
};
template <class A0, class... B> void pairs1(Suite& s, Ts<B...>) { int d[] = { (Unary<long double, A0, B>::go(s), 0)... }; (void)d; }
template <class... X> void pairs(Suite& s, Ts<X...> t) { int d[] = { (pairs1<X>(s, t), 0)... }; (void)d; }
template <class A0, class A1, class... B> void triples2(Suite& s, Ts<B...>) { int d[] = { (Unary<long double, A0, A1, B>::go(s), 0)... }; (void)d; }
template <class A0, class... B> void triples1(Suite& s, Ts<B...> t) { int d[] = { (triples2<A0, B>(s, t), 0)... }; (void)d; }
template <class... X> void triples(Suite& s, Ts<X...> t) { int d[] = { (triples1<X>(s, t), 0)... }; (void)d; }

typedef boost::variant<A<0>, A<1> > V2;
#if MC_PART == 4
// results that are references, pointers to base and derived, void, class types
struct RefVis { int& operator()(A<0>&) const { return ia; } int& operator()(A<1>&) const { return ib; } };
struct BaseVis { PB& operator()(A<0>&) const { return pb; } PD& operator()(A<1>&) const { return pd; } };
struct BaseVis2 { PD& operator()(A<0>&) const { return pd; } PB& operator()(A<1>&) const { return pb; } };
struct ConstVis { const int& operator()(A<0>&) const { return ia; } int& operator()(A<1>&) const { return ib; } };
struct SelfVis { A<0>& operator()(A<0>& x) const { return x; } A<0>& operator()(A<1>&) const { static A<0> other; return other; } };
struct VoidVis { void operator()(A<0>&) const { called = 0; } void operator()(A<1>&) const { called = 1; } };
struct StrVis { const char* operator()(A<0>&) const { return "zero"; } std::string operator()(A<1>&) const { return std::string(40, '1'); } };
struct StrVis2 { std::string operator()(A<0>&) const { return std::string(40, '0'); } const char* operator()(A<1>&) const { return "one"; } };
// alternatives that are references, const, wrapped or recursive
struct S { int x; };
typedef boost::make_recursive_variant<int, std::vector<boost::recursive_variant_> >::type Tree;
struct TreeVis { int operator()(const int&) const { return 1 << 30; } double operator()(const std::vector<Tree>&) const { return 2.5; } };
struct MutVis { int operator()(int&) const { return 1 << 30; } double operator()(std::string&) const { return 2.5; } double operator()(S&) const { return 2.5; } };
struct CVis { int operator()(const int&) const { return 1 << 30; } double operator()(const std::string&) const { return 2.5; } double operator()(const S&) const { return 2.5; } };
template <class V, class C> void shapes1(Suite& s, V& v, C& vis, bool second, const char* what) {
    const double want = second ? 2.5 : 1 << 30; s.calls += 3; const C& cvis = vis;
    MC_CHECK(boost::apply_visitor(vis, v) == want, "%s: lvalue visitor", what);
    MC_CHECK(boost::apply_visitor(cvis, v) == want, "%s: const visitor", what);
    MC_CHECK(boost::apply_visitor(vis)(v) == want, "%s: delayed", what);
}
template <class V, class C> void shapes2(Suite& s, V& v, C& vis, bool second, const char* what) {
    const double want = second ? 2.5 : 1 << 30; s.calls += 5; const V& cv = v;
    shapes1(s, v, vis, second, what); shapes1(s, cv, vis, second, what);
    MC_CHECK(boost::apply_visitor(C(), v) == want && boost::apply_visitor(C(), cv) == want, "%s: rvalue visitor", what);
    MC_CHECK(boost::apply_visitor(C(), std::move(v)) == want, "%s: rvalue variant", what);
}
void shapes(Suite& s) {
    for (int alt = 0; alt < 2; ++alt) {
        std::string a = "/alt" + std::to_string(alt); s.state("shapes" + a); int n = 1; std::string str("x"); MutVis m; CVis c; TreeVis t;
        s.run("reference" + a, [&] { typedef boost::variant<int&, std::string&> V; V v = alt ? V(str) : V(n); const V cv(v); shapes1(s, v, m, alt, "reference alternatives"); shapes1(s, cv, m, alt, "const variant of references"); shapes2(s, v, c, alt, "reference alternatives"); });
        s.run("const" + a, [&] { typedef boost::variant<const int, const std::string> V; V v = alt ? V(str) : V(n); shapes2(s, v, c, alt, "const alternatives"); });
        s.run("wrapped" + a, [&] { typedef boost::variant<int, boost::recursive_wrapper<S> > V; V v = alt ? V(S()) : V(n); shapes1(s, v, m, alt, "wrapped alternative"); shapes2(s, v, c, alt, "wrapped alternative"); });
        s.run("tree" + a, [&] { Tree v = alt ? Tree(std::vector<Tree>(2, Tree(1))) : Tree(n); shapes2(s, v, t, alt, "recursive alternative"); });
    }
}
void classes(Suite& s) {
    for (int alt = 0; alt < 2; ++alt) {
        std::string a = "/alt" + std::to_string(alt);
        auto make = [alt] { return alt ? V2(A<1>()) : V2(A<0>()); };
        s.state("classes" + a); s.calls += 10;
        s.run("int&" + a, [&] { V2 v = make(); RefVis x; static_assert(std::is_same<decltype(boost::apply_visitor(x, v)), int&>::value, ""); int* want = alt ? &ib : &ia;
            MC_CHECK(&boost::apply_visitor(x, v) == want && &boost::apply_visitor(RefVis(), v) == want && &boost::apply_visitor(x)(v) == want, "the reference a visitor returned names another object"); });
        s.run("PB&,PD&" + a, [&] { V2 v = make(); BaseVis x; PB* want = alt ? static_cast<PB*>(&pd) : &pb; PB& r = boost::apply_visitor(x, v); MC_CHECK(&r == want, "base reference"); PB& q = boost::apply_visitor(x)(v); MC_CHECK(&q == want, "base reference, delayed"); });
        s.run("PD&,PB&" + a, [&] { V2 v = make(); BaseVis2 x; PB* want = !alt ? static_cast<PB*>(&pd) : &pb; PB& r = boost::apply_visitor(x, v); MC_CHECK(&r == want, "base reference"); PB& q = boost::apply_visitor(x)(v); MC_CHECK(&q == want, "base reference, delayed"); });
        s.run("const int&,int&" + a, [&] { V2 v = make(); ConstVis x; const int& r = boost::apply_visitor(x, v); MC_CHECK(&r == (alt ? &ib : &ia), "const reference"); });
        s.run("self" + a, [&] { V2 v = make(); SelfVis x; A<0>& r = boost::apply_visitor(x, v); MC_CHECK((&r == boost::get<A<0> >(&v)) == !alt, "reference to the content"); r.v = 7; MC_CHECK(alt || boost::get<A<0> >(v).v == 7, "write through the result"); });
        s.run("void" + a, [&] { V2 v = make(); VoidVis x; called = -1; boost::apply_visitor(x, v); MC_CHECK(called == alt, "void"); called = -1; boost::apply_visitor(x)(v); MC_CHECK(called == alt, "void, delayed"); });
        s.run("string" + a, [&] { V2 v = make(); StrVis x; StrVis2 y; MC_CHECK(std::string(boost::apply_visitor(x, v)) == (alt ? std::string(40, '1') : std::string("zero")), "const char*, string"); MC_CHECK(std::string(boost::apply_visitor(y, v)) == (alt ? std::string("one") : std::string(40, '0')), "string, const char*"); });
    }
}
#endif
// two operands: 2 x 2 alternatives, four result types
template <class R0, class R1, class R2, class R3> struct Vis2 {
    R0 operator()(const A<0>&, const A<2>&) const { called = 0; return Val<R0>::get(); }
    R1 operator()(const A<0>&, const A<3>&) const { called = 1; return Val<R1>::get(); }
    R2 operator()(const A<1>&, const A<2>&) const { called = 2; return Val<R2>::get(); }
    R3 operator()(const A<1>&, const A<3>&) const { called = 3; return Val<R3>::get(); }
};
typedef boost::variant<A<2>, A<3> > W2;
template <class R0, class R1, class R2, class R3> void binary(Suite& s) {
    typedef long double K;
    const char* names[] = { Val<R0>::name(), Val<R1>::name(), Val<R2>::name(), Val<R3>::name() };
    const K want[] = { K(Val<R0>::get()), K(Val<R1>::get()), K(Val<R2>::get()), K(Val<R3>::get()) };
    std::string id; for (const char* n : names) id += std::string(n) + ",";
    for (int c = 0; c < 4; ++c) for (int f = 0; f < 3; ++f) {
        s.state("2" + id + std::to_string(c)); ++s.calls;
        s.run("two/" + id + "/comb" + std::to_string(c) + "/form" + std::to_string(f), [&] {
            V2 v; W2 w; if (c & 2) v = A<1>(); if (c & 1) w = A<3>();
            Vis2<R0, R1, R2, R3> vis; called = -1; K got = 0;
            switch (f) { case 0: got = boost::apply_visitor(vis, v, w); break; case 1: got = boost::apply_visitor(Vis2<R0, R1, R2, R3>(), std::move(v), static_cast<const W2&>(w)); break; default: got = boost::apply_visitor(vis)(v, w); }
            MC_CHECK(called == c, "another overload was called");
            MC_CHECK(got == want[c], "the result for combination %d, of type %s, lost its value on the way (the overloads return %s)", c, names[c], id.c_str());
        });
    }
}
template <class A0, class A1, class A2, class... B> void quads3(Suite& s, Ts<B...>) { int d[] = { (binary<A0, A1, A2, B>(s), 0)... }; (void)d; }
template <class A0, class A1, class... B> void quads2(Suite& s, Ts<B...> t) { int d[] = { (quads3<A0, A1, B>(s, t), 0)... }; (void)d; }
template <class A0, class... B> void quads1(Suite& s, Ts<B...> t) { int d[] = { (quads2<A0, B>(s, t), 0)... }; (void)d; }
// three operands: one combination returns Y, the others X
template <class X, class Y, int P> struct Vis3 {
    template <int I> using R = typename std::conditional<I == P, Y, X>::type;
    template <int I, int J, int K> R<I * 4 + J * 2 + K> operator()(const A<I>&, const A<J>&, const A<K>&) const { called = I * 4 + J * 2 + K; return Val<R<I * 4 + J * 2 + K> >::get(); }
};
template <class X, class Y, int P> void ternary(Suite& s) {
    std::string id = std::string("three/") + Val<X>::name() + "," + Val<Y>::name() + " at " + std::to_string(P);
    for (int c = 0; c < 8; ++c) {
        s.state(id + std::to_string(c)); s.calls += 2;
        s.run(id + "/comb" + std::to_string(c), [&] {
            V2 a, b, d; if (c & 4) a = A<1>(); if (c & 2) b = A<1>(); if (c & 1) d = A<1>();
            Vis3<X, Y, P> vis; long double want = c == P ? (long double)Val<Y>::get() : (long double)Val<X>::get();
            called = -1; long double got = boost::apply_visitor(vis, a, b, d);
            MC_CHECK(called == c && got == want, "the result for combination %d lost its value on the way", c);
            const Vis3<X, Y, P> cvis{}; called = -1; got = boost::apply_visitor(cvis, a, static_cast<const V2&>(b), d);
            MC_CHECK(called == c && got == want, "the result for combination %d lost its value on the way (const)", c);
        });
    }
}
template <class X, class Y> void ternaries(Suite& s) { ternary<X, Y, 0>(s); ternary<X, Y, 1>(s); ternary<X, Y, 2>(s); ternary<X, Y, 3>(s); ternary<X, Y, 4>(s); ternary<X, Y, 5>(s); ternary<X, Y, 6>(s); ternary<X, Y, 7>(s); }

int main(int argc, char** argv) {
    run_matrix("deduce", argc, argv, [](Suite& s) {
#if MC_PART == 0
        pairs(s, All());
#elif MC_PART == 1
        triples(s, Few());
        Unary<PB*, PB*, PD*>::go(s); Unary<PB*, PD*, PB*>::go(s); Unary<PB*, PD*, PD*>::go(s); Unary<PB*, PD*, PB*, PD*>::go(s); Unary<PB*, PD*, PD*, PB*>::go(s); Unary<PB*, PB*, PD*, PD*>::go(s);
#elif MC_PART == 2
        quads1<char>(s, Ts<char, double>()); quads1<double>(s, Ts<char, double>()); quads1<int>(s, Ts<int, long>()); quads1<long>(s, Ts<int, long>());
#elif MC_PART == 3
        ternaries<int, double>(s); ternaries<double, int>(s); ternaries<char, long>(s); ternaries<bool, float>(s);
#elif MC_PART == 4
        classes(s); shapes(s);
#endif
    });
    return 0;
}
