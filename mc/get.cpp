// get, strict_get, relaxed_get (C09) and polymorphic_get (C10):
// alternative x storage state x requested type x form, against the address the visitor sees.
#define MC_MAIN
#include "matrix.hpp"
#include <boost/variant/get.hpp>
#include <boost/variant/polymorphic_get.hpp>
using namespace mc;
#ifndef MC_PART
#define MC_PART 0
#endif
struct Addr : boost::static_visitor<const void*> { template <class T> const void* operator()(const T& t) const { return std::addressof(t); } };
template <class V> const void* content(const V& v) { Addr a; return v.apply_visitor(a); }

// a bounded type and its base, which is bounded as well
struct Base : Core { enum { T = 300 }; int pad; explicit Base(int v) : Core(T, v, false) {} Base(const Base& o) noexcept(false) : Core(CopyTag(), T, o, false) {} Base& operator=(const Base& o) { cassign(o, false); return *this; } };
struct Derived : Base { long extra; explicit Derived(int v) : Base(v) {} Derived(const Derived& o) noexcept(false) : Base(o) {} Derived& operator=(const Derived& o) { cassign(o, false); return *this; } };
// converts to and from int
struct Conv { int v; explicit Conv(int i = 3) : v(i) {} operator int() const { return v; } operator const Base&() const { abort(); } };
// overloads the address operator
struct NoAddr { int v; explicit NoAddr(int i = 4) : v(i) {} NoAddr* operator&() { return 0; } const NoAddr* operator&() const { return 0; } };
struct Unbounded { Unbounded(int = 0) {} Unbounded(const Base&) {} };

template <class A, class B> struct same_plain : std::is_same<typename std::remove_cv<A>::type, B> {};
enum Form { PTR, CPTR, REF, CREF, RVAL, NFORMS };
static const char* forms[] = { "pointer", "const pointer", "reference", "const reference", "rvalue" };

#define GETTER(NAME, FN) struct NAME { \
    static const char* name() { return #FN; } \
    template <class U, class V> static auto p(V* v) -> decltype(boost::FN<U>(v)) { static_assert(noexcept(boost::FN<U>(v)), "noexcept"); return boost::FN<U>(v); } \
    template <class U, class V> static auto r(V&& v) -> decltype(boost::FN<U>(std::forward<V>(v))) { return boost::FN<U>(std::forward<V>(v)); } };
GETTER(Get, get) GETTER(Strict, strict_get) GETTER(Relaxed, relaxed_get)

template <class G, class U, class V> void one(Suite& s, V& v, int form, const void* want, const char* what) {
    const V& cv = v;
    int which = v.which();
    const void* got = 0; bool threw = false;
    ++s.calls;
    static_assert(std::is_same<decltype(G::template p<U>(&v)), U*>::value, "");
    static_assert(std::is_same<decltype(G::template p<U>(&cv)), const U*>::value, "");
    static_assert(std::is_same<decltype(G::template r<U>(v)), U&>::value, "");
    static_assert(std::is_same<decltype(G::template r<U>(cv)), const U&>::value, "");
    static_assert(std::is_same<decltype(G::template r<U>(std::move(v))), U&&>::value, "");
    {
        Arm arm(0, 0);
        try {
            switch (form) {
            case PTR: got = G::template p<U>(&v); break;
            case CPTR: got = G::template p<U>(&cv); break;
            case REF: { U& r = G::template r<U>(v); got = std::addressof(r); break; }
            case CREF: { const U& r = G::template r<U>(cv); got = std::addressof(r); break; }
            case RVAL: { U&& r = G::template r<U>(std::move(v)); got = std::addressof(r); break; }
            }
        } catch (const boost::bad_get& e) { threw = true; MC_CHECK(std::string(e.what()).find("bad_get") != std::string::npos, "what()"); }
    }
    bool by_ref = form >= REF;
    MC_CHECK(!threw || by_ref, "%s by %s of %s threw", G::name(), forms[form], what);
    MC_CHECK(threw == (by_ref && !want), "%s by %s of %s %s", G::name(), forms[form], what, threw ? "threw bad_get although the variant holds it" : "did not throw bad_get");
    MC_CHECK(threw || got == want, "%s by %s of %s gave %s", G::name(), forms[form], what, !got ? "null although the variant holds it" : want ? "another object" : "an object although the variant does not hold that type");
    MC_CHECK(W().copies == 0 && W().moves == 0 && W().allocs == (threw ? W().allocs : 0), "%s copied content", G::name());
    MC_CHECK(v.which() == which && content(cv) != 0, "%s changed the variant", G::name());
    s.outcomes.insert(std::string(G::name()) + forms[form] + what + (threw ? "!" : got ? "+" : "0"));
}
template <class G, class U, class V> void nulls(Suite& s, const char* what) {
    V* p = 0; const V* cp = 0; s.calls += 2;
    MC_CHECK(G::template p<U>(p) == 0 && G::template p<U>(cp) == 0, "%s of %s of a null pointer is not null", G::name(), what);
}
template <class U, class V> void bounded(Suite& s, V& v, int idx, const char* what) {
    for (int f = 0; f < NFORMS; ++f) {
        const void* want = v.which() == idx ? content(v) : 0;
        one<Get, U>(s, v, f, want, what); one<Strict, U>(s, v, f, want, what); one<Relaxed, U>(s, v, f, want, what);
        std::string c = std::string("const ") + what;
        one<Get, const U>(s, v, f, want, c.c_str()); one<Strict, const U>(s, v, f, want, c.c_str()); one<Relaxed, const U>(s, v, f, want, c.c_str());
    }
    nulls<Get, U, V>(s, what); nulls<Strict, U, V>(s, what); nulls<Relaxed, const U, V>(s, what);
}
template <class U, class V> void unbounded(Suite& s, V& v, const char* what) {
    for (int f = 0; f < NFORMS; ++f) { one<Relaxed, U>(s, v, f, 0, what); one<Relaxed, const U>(s, v, f, 0, what); }
    nulls<Relaxed, U, V>(s, what);
#ifdef BOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT
    for (int f = 0; f < NFORMS; ++f) { one<Get, U>(s, v, f, 0, what); one<Get, const U>(s, v, f, 0, what); }
    nulls<Get, U, V>(s, what);
#endif
}

template <class V> struct Def;
typedef boost::variant<Base, TT<1>, Derived, boost::recursive_wrapper<TN<3> >, NT<4>, CO<5> > VA;            // no fallback
typedef boost::variant<int, Conv, NoAddr, long, boost::recursive_wrapper<TT<4> >, std::string, boost::blank, MO<7>, double, int*, const int*, NN<11> > VB;
typedef boost::make_variant_over<boost::mpl::list<TT<0>, NoAddr, char, unsigned char, boost::recursive_wrapper<int> > >::type VC;
typedef boost::make_recursive_variant<TT<0>, std::vector<boost::recursive_variant_>, const char*, std::pair<boost::recursive_variant_, int>* >::type VD;
static int thing;

template <> struct Def<VA> {
    enum { N = 6 }; static const char* name() { return "A"; }
    static VA* make(int i) { switch (i) { case 0: return new VA(Base(1)); case 1: return new VA(TT<1>(1)); case 2: return new VA(Derived(1)); case 3: return new VA(TN<3>(1)); case 4: return new VA(NT<4>(1)); default: return new VA(CO<5>(1)); } }
    static bool bomb(VA& v) { return v.which() == 1 ? drive_to_heap<VA, CO<5> >(v, 9) : drive_to_heap<VA, TT<1> >(v, 9); }
    static void all(Suite& s, VA& v) {
        bounded<Base>(s, v, 0, "Base"); bounded<TT<1> >(s, v, 1, "TT<1>"); bounded<Derived>(s, v, 2, "Derived"); bounded<TN<3> >(s, v, 3, "TN<3>"); bounded<NT<4> >(s, v, 4, "NT<4>"); bounded<CO<5> >(s, v, 5, "CO<5>");
        unbounded<Core>(s, v, "Core"); unbounded<int>(s, v, "int"); unbounded<TT<0> >(s, v, "TT<0>"); unbounded<Unbounded>(s, v, "Unbounded"); unbounded<Base*>(s, v, "Base*");
    }
};
template <> struct Def<VB> {
    enum { N = 12 }; static const char* name() { return "B"; }
    static VB* make(int i) {
        switch (i) { case 0: return new VB(1); case 1: return new VB(Conv()); case 2: return new VB(NoAddr()); case 3: return new VB(2L); case 4: return new VB(TT<4>(1)); case 5: return new VB(std::string(50, 'x'));
        case 6: return new VB(boost::blank()); case 7: return new VB(MO<7>(1)); case 8: return new VB(1.5); case 9: return new VB(&thing); case 10: return new VB(const_cast<const int*>(&thing)); default: return new VB(NN<11>(1)); }
    }
    static bool bomb(VB&) { return false; }
    static void all(Suite& s, VB& v) {
        bounded<int>(s, v, 0, "int"); bounded<Conv>(s, v, 1, "Conv"); bounded<NoAddr>(s, v, 2, "NoAddr"); bounded<long>(s, v, 3, "long"); bounded<TT<4> >(s, v, 4, "TT<4>"); bounded<std::string>(s, v, 5, "string");
        bounded<boost::blank>(s, v, 6, "blank"); bounded<MO<7> >(s, v, 7, "MO<7>"); bounded<double>(s, v, 8, "double"); bounded<int*>(s, v, 9, "int*"); bounded<const int*>(s, v, 10, "const int*"); bounded<NN<11> >(s, v, 11, "NN<11>");
        unbounded<unsigned>(s, v, "unsigned"); unbounded<float>(s, v, "float"); unbounded<long long>(s, v, "long long"); unbounded<void*>(s, v, "void*"); unbounded<boost::recursive_wrapper<TT<4> > >(s, v, "recursive_wrapper"); unbounded<bool>(s, v, "bool");
    }
};
template <> struct Def<VC> {
    enum { N = 5 }; static const char* name() { return "C"; }
    static VC* make(int i) { switch (i) { case 0: return new VC(TT<0>(1)); case 1: return new VC(NoAddr()); case 2: return new VC('a'); case 3: return new VC((unsigned char)'b'); default: return new VC(5); } }
    static bool bomb(VC&) { return false; }
    static void all(Suite& s, VC& v) {
        bounded<TT<0> >(s, v, 0, "TT<0>"); bounded<NoAddr>(s, v, 1, "NoAddr"); bounded<char>(s, v, 2, "char"); bounded<unsigned char>(s, v, 3, "unsigned char"); bounded<int>(s, v, 4, "int");
        unbounded<signed char>(s, v, "signed char"); unbounded<long>(s, v, "long");
    }
};
template <> struct Def<VD> {
    enum { N = 4 }; static const char* name() { return "D"; }
    static VD* make(int i) { switch (i) { case 0: return new VD(TT<0>(1)); case 1: return new VD(std::vector<VD>(2, VD(TT<0>(2)))); case 2: return new VD((const char*)"x"); default: return new VD((std::pair<VD, int>*)0); } }
    static bool bomb(VD&) { return false; }
    static void all(Suite& s, VD& v) {
        bounded<TT<0> >(s, v, 0, "TT<0>"); bounded<std::vector<VD> >(s, v, 1, "vector"); bounded<const char*>(s, v, 2, "const char*"); bounded<std::pair<VD, int>*>(s, v, 3, "pair*");
        unbounded<std::vector<boost::recursive_variant_> >(s, v, "vector<placeholder>"); unbounded<char*>(s, v, "char*"); unbounded<VD>(s, v, "the variant itself");
    }
};
template <class V> void run_get(Suite& s) {
    for (int alt = 0; alt < Def<V>::N; ++alt) for (int st = 0; st < NST; ++st) {
        std::string id = std::string(Def<V>::name()) + "/alt" + std::to_string(alt) + "/" + st_name(st);
        s.state(id);
        s.run(id, [&] {
            std::unique_ptr<V> v(Def<V>::make(alt));
            if (st == MOVEDFROM) { V w(std::move(*v)); }
            else if (st == ASSIGNED) { std::unique_ptr<V> w(Def<V>::make((alt + 1) % Def<V>::N)); *w = std::move(*v); v.swap(w); }
            else if (st == HEAP && !Def<V>::bomb(*v)) return;
            MC_CHECK(v->which() == alt, "prepared state");
            Def<V>::all(s, *v);
        });
    }
}
// rvalue get hands out the content to move from; lvalue get does not
void taking(Suite& s) {
    s.run("take", [&] {
        VB v(MO<7>(5)); ++s.calls;
        { Arm a(0, 0); MO<7> m(boost::get<MO<7> >(std::move(v))); MC_CHECK(m.val == 5 && W().moves == 1, "rvalue get"); }
        { Arm a(0, 0); MO<7> m(boost::relaxed_get<MO<7> >(VB(MO<7>(6)))); MC_CHECK(m.val == 6, "rvalue relaxed_get"); }
        { Arm a(0, 0); MO<7> m(boost::strict_get<MO<7> >(VB(MO<7>(6)))); MC_CHECK(m.val == 6, "rvalue strict_get"); }
        VA w(TT<1>(3));
        { Arm a(0, 0); TT<1> t(boost::get<TT<1> >(w)); MC_CHECK(t.val == 3 && W().copies == 1 && W().moves == 0, "lvalue get moved"); }
        { Arm a(0, 0); TT<1> t(boost::get<TT<1> >(std::move(w))); MC_CHECK(t.val == 3 && W().copies == 0 && W().moves == 1, "rvalue get copied"); }
    });
    s.run("write", [&] {
        VA w(TT<1>(3)); s.calls += 3;
        boost::get<TT<1> >(w).val = 8; MC_CHECK(boost::get<TT<1> >(&w)->val == 8, "write lost");
        boost::strict_get<TT<1> >(&w)->val = 9; MC_CHECK(boost::get<TT<1> >(w).val == 9, "write lost");
        w = TN<3>(4); boost::get<TN<3> >(w).val = 5; VA x(w); MC_CHECK(boost::get<TN<3> >(x).val == 5, "write lost");
    });
}

// ---- polymorphic_get -----------------------------------------------------------------------------------
namespace poly {
struct PB { int a; PB() : a(1) {} PB(const PB& o) noexcept(false) : a(o.a) {} virtual ~PB() {} };
struct Pad { long q[3]; Pad() { q[0] = q[1] = q[2] = 2; } };
struct D1 : PB { int b; D1() : b(3) {} };
struct D2 : Pad, PB { int c; D2() : c(4) {} };            // PB is not the first base
struct DV : Pad, virtual PB { int d; DV() : d(5) {} };     // virtual base
struct DD : D2 { int e; DD() : e(6) {} };                  // two levels
struct Pl : Pad { int f; Pl() : f(7) {} };                 // not polymorphic
struct Un { int g; Un() : g(8) {} operator const PB&() const { abort(); } operator PB&() { abort(); } };   // converts only
struct Em {}; struct DE : Em, PB {};                       // empty base
struct W1 : PB { W1() {} };                                // in a recursive_wrapper
typedef boost::variant<PB, D1, D2, DV, DD, Pl, Un, DE, int, boost::recursive_wrapper<W1> > V;
typedef boost::variant<D1, D2, boost::recursive_wrapper<W1>, DV> V2;  // PB itself is not bounded
template <class V> struct Def;
template <> struct Def<V> { enum { N = 10 }; static const char* name() { return "P"; }
    static V* make(int i) { switch (i) { case 0: return new V(PB()); case 1: return new V(D1()); case 2: return new V(D2()); case 3: return new V(DV()); case 4: return new V(DD()); case 5: return new V(Pl()); case 6: return new V(Un()); case 7: return new V(DE()); case 8: return new V(7); default: return new V(W1()); } } };
template <> struct Def<V2> { enum { N = 4 }; static const char* name() { return "Q"; }
    static V2* make(int i) { switch (i) { case 0: return new V2(D1()); case 1: return new V2(D2()); case 2: return new V2(W1()); default: return new V2(DV()); } } };
template <class U> struct Expect : boost::static_visitor<const void*> {
    template <class T> static const void* f(const T& t, std::true_type) { const U* u = &t; return u; }
    template <class T> static const void* f(const T&, std::false_type) { return 0; }
    template <class T> const void* operator()(const T& t) const { return f(t, std::integral_constant<bool, std::is_base_of<U, T>::value || std::is_same<U, T>::value>()); }
};
GETTER(PGet, polymorphic_get) GETTER(PStrict, polymorphic_strict_get) GETTER(PRelaxed, polymorphic_relaxed_get)
template <class G, class U, class V> void pone(Suite& s, V& v, int form, const void* want, const char* what) {
    const V& cv = v; const void* got = 0; bool threw = false;
    static_assert(std::is_same<decltype(G::template p<U>(&v)), U*>::value, "");
    static_assert(std::is_same<decltype(G::template p<U>(&cv)), const U*>::value, "");
    static_assert(std::is_same<decltype(G::template r<U>(v)), U&>::value, "");
    static_assert(std::is_same<decltype(G::template r<U>(cv)), const U&>::value, "");
    ++s.calls;
    try {
        switch (form) {
        case PTR: got = G::template p<U>(&v); break;
        case CPTR: got = G::template p<U>(&cv); break;
        case REF: { U& r = G::template r<U>(v); got = &r; break; }
        case CREF: { const U& r = G::template r<U>(cv); got = &r; break; }
        }
    } catch (const boost::bad_polymorphic_get& e) { threw = true; MC_CHECK(std::string(e.what()).find("bad_polymorphic_get") != std::string::npos, "what()"); }
    bool by_ref = form >= REF;
    MC_CHECK(threw == (by_ref && !want), "%s<%s> by %s %s", G::name(), what, forms[form], threw ? "threw although the content is or derives from it" : "did not throw bad_polymorphic_get");
    MC_CHECK(threw || got == want, "%s<%s> by %s gave %s", G::name(), what, forms[form], !got ? "null although the content is or derives from it" : want ? "a wrong address" : "an object although the content is not of that type");
    s.outcomes.insert(std::string(G::name()) + forms[form] + what + (threw ? "!" : got ? "+" : "0"));
}
template <bool Strict> struct Ask { template <class U, class V> static void go(Suite& s, V& v, int f, const void* want, const char* what) { pone<PRelaxed, U>(s, v, f, want, what); pone<PRelaxed, const U>(s, v, f, want, what);
#ifdef BOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT
    pone<PGet, U>(s, v, f, want, what); pone<PGet, const U>(s, v, f, want, what);
#endif
} };
template <bool Strict> struct Null { template <class U, class V> static bool all(V* n, const V* cn) { return !boost::polymorphic_relaxed_get<U>(n) && !boost::polymorphic_relaxed_get<U>(cn); } };
template <> struct Null<true> { template <class U, class V> static bool all(V* n, const V* cn) { return Null<false>::all<U>(n, cn) && !boost::polymorphic_get<U>(n) && !boost::polymorphic_get<U>(cn) && !boost::polymorphic_strict_get<U>(n) && !boost::polymorphic_strict_get<U>(cn); } };
template <> struct Ask<true> { template <class U, class V> static void go(Suite& s, V& v, int f, const void* want, const char* what) { Ask<false>::go<U>(s, v, f, want, what); pone<PGet, U>(s, v, f, want, what); pone<PStrict, U>(s, v, f, want, what); pone<PGet, const U>(s, v, f, want, what); pone<PStrict, const U>(s, v, f, want, what); } };
template <class U, bool Strict, class V> void ask(Suite& s, V& v, const char* what) {
    const V& cv = v; Expect<U> e; const void* want = cv.apply_visitor(e);
    for (int f = PTR; f <= CREF; ++f) Ask<Strict>::template go<U>(s, v, f, want, what);
    V* n = 0; const V* cn = 0; s.calls += 2;
    MC_CHECK(Null<Strict>::template all<U>(n, cn), "polymorphic_get of a null pointer is not null");
}
void all(Suite& s, V& v) {
    ask<PB, true>(s, v, "PB"); ask<D1, true>(s, v, "D1"); ask<D2, true>(s, v, "D2"); ask<DV, true>(s, v, "DV"); ask<DD, true>(s, v, "DD"); ask<Pl, true>(s, v, "Pl"); ask<Pad, true>(s, v, "Pad"); ask<Un, true>(s, v, "Un"); ask<Em, true>(s, v, "Em"); ask<DE, true>(s, v, "DE"); ask<int, true>(s, v, "int"); ask<W1, true>(s, v, "W1");
    ask<long, false>(s, v, "long"); ask<Unbounded, false>(s, v, "Unbounded");
}
void all(Suite& s, V2& v) {
    ask<PB, true>(s, v, "PB"); ask<Pad, true>(s, v, "Pad"); ask<D1, true>(s, v, "D1"); ask<W1, true>(s, v, "W1"); ask<DD, false>(s, v, "DD");
}
// a base that only the content of a recursive_wrapper, or a reference, has
struct RB { int r; RB() : r(9) {} virtual ~RB() {} }; struct R1 : Pad, RB {};
typedef boost::variant<int, boost::recursive_wrapper<R1> > V3;
template <> struct Def<V3> { enum { N = 2 }; static const char* name() { return "R"; } static V3* make(int i) { return i ? new V3(R1()) : new V3(1); } };
void all(Suite& s, V3& v) { ask<RB, true>(s, v, "RB"); ask<R1, true>(s, v, "R1"); }
// alternatives that are references: the object referred to is found, at its own address
typedef boost::variant<int, R1&> V4; typedef boost::variant<D2&, int&, DV&> V5;
static R1 r1; static D2 d2; static DV dv; static int in;
void all(Suite& s, V4& v) { ask<RB, true>(s, v, "RB"); ask<R1, true>(s, v, "R1"); ask<Pad, true>(s, v, "Pad"); ask<int, true>(s, v, "int"); ask<D1, false>(s, v, "D1"); }
void all(Suite& s, V5& v) { ask<PB, true>(s, v, "PB"); ask<D2, true>(s, v, "D2"); ask<Pad, true>(s, v, "Pad"); ask<DV, true>(s, v, "DV"); ask<int, true>(s, v, "int"); ask<RB, false>(s, v, "RB"); }
template <class V> void refs1(Suite& s, const V& made, int alt, const void* where, const char* name) {
    for (int how = 0; how < 3; ++how) {
        std::string id = std::string(name) + "/alt" + std::to_string(alt) + "/" + std::to_string(how);
        s.state(id);
        s.run(id, [&] {
            V v(made); V u(v);
            if (how == 1) { V w(std::move(v)); }
            V& x = how == 2 ? u : v;
            MC_CHECK(x.which() == alt && (!where || content(x) == where), "the variant refers to another object");
            all(s, x);
        });
    }
}
// a const alternative is found as const only
typedef boost::variant<int, const D2, const DV> V6;
template <class U, class V> void consts(Suite& s, V& v, const void* want, const char* what) {
    for (int f = PTR; f <= CREF; ++f) {
        const void* w = f == PTR || f == REF ? 0 : want;
        pone<PRelaxed, U>(s, v, f, w, what); pone<PStrict, U>(s, v, f, w, what); pone<PRelaxed, const U>(s, v, f, want, what); pone<PStrict, const U>(s, v, f, want, what);
    }
}
void const_alternatives(Suite& s) {
    for (int alt = 0; alt < 3; ++alt) {
        std::string id = "U/alt" + std::to_string(alt); s.state(id);
        s.run(id, [&] {
            const D2 a; const DV b; V6 made = alt == 0 ? V6(1) : alt == 1 ? V6(a) : V6(b); V6 v(made);
            MC_CHECK(v.which() == alt, "prepared state");
            const V6& cv = v; Expect<PB> e; Expect<Pad> p; Expect<D2> d; Expect<DV> x;
            consts<PB>(s, v, cv.apply_visitor(e), "PB"); consts<Pad>(s, v, cv.apply_visitor(p), "Pad"); consts<D2>(s, v, cv.apply_visitor(d), "D2"); consts<DV>(s, v, cv.apply_visitor(x), "DV");
        });
    }
}
void refs(Suite& s) {
    refs1(s, V4(3), 0, 0, "S"); refs1(s, V4(r1), 1, &r1, "S");
    refs1(s, V5(d2), 0, &d2, "T"); refs1(s, V5(in), 1, &in, "T"); refs1(s, V5(dv), 2, &dv, "T");
}

template <class V> void run(Suite& s) {
    for (int alt = 0; alt < Def<V>::N; ++alt) for (int how = 0; how < 4; ++how) {
        std::string id = std::string(Def<V>::name()) + "/alt" + std::to_string(alt) + "/" + st_name(how);
        s.state(id);
        s.run(id, [&] {
            std::unique_ptr<V> v(Def<V>::make(alt));
            if (how == MOVEDFROM) { V w(std::move(*v)); }
            else if (how == ASSIGNED) { std::unique_ptr<V> w(Def<V>::make((alt + 1) % Def<V>::N)); *w = *v; v.swap(w); }
            else if (how == HEAP) { std::unique_ptr<V> w(Def<V>::make((alt + 1) % Def<V>::N)); w->swap(*v); v.swap(w); }
            MC_CHECK(v->which() == alt, "prepared state");
            all(s, *v);
        });
    }
}
}
// content kept after a failed assignment
namespace poly {
struct HB { int a; HB() : a(1) {} virtual ~HB() {} };
struct H1 : Pad, HB { int v; explicit H1(int) : v(1) { point(); } H1(const H1& o) noexcept(false) : Pad(o), HB(o), v(o.v) { point(); } H1& operator=(const H1& o) { point(); v = o.v; return *this; } };
struct H2 : Pad, HB { int v; explicit H2(int) : v(1) { point(); } H2(const H2& o) noexcept(false) : Pad(o), HB(o), v(o.v) { point(); } H2& operator=(const H2& o) { point(); v = o.v; return *this; } };
typedef boost::variant<H1, H2> VH;
void heap(Suite& s) {
    for (int alt = 0; alt < 2; ++alt) s.run("kept/alt" + std::to_string(alt), [&] {
        VH v = alt ? VH(H2(1)) : VH(H1(1));
        bool h = alt ? drive_to_heap<VH, H1>(v, 1) : drive_to_heap<VH, H2>(v, 1);
        s.state(std::string("kept") + (h ? "1" : "0") + std::to_string(alt));
        ask<HB, true>(s, v, "HB"); ask<Pad, true>(s, v, "Pad"); ask<H1, true>(s, v, "H1"); ask<H2, true>(s, v, "H2");
    });
}
}
int main(int argc, char** argv) {
    run_matrix("get", argc, argv, [](Suite& s) {
#if MC_PART == 0
        run_get<VA>(s); taking(s);
#elif MC_PART == 1
        run_get<VB>(s);
#elif MC_PART == 2
        run_get<VC>(s); run_get<VD>(s);
#elif MC_PART == 3
        poly::run<poly::V>(s);
#elif MC_PART == 4
        poly::run<poly::V2>(s); poly::heap(s); poly::run<poly::V3>(s); poly::refs(s); poly::const_alternatives(s);
#endif
    });
    return 0;
}
