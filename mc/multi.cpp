// Visiting several variants (C08): alternatives x storage states x value categories x visitor forms x result types,
// for two to five operands, and the same variant as several operands.
#define MC_MAIN
#include "matrix.hpp"
#include <boost/variant/multivisitors.hpp>
using namespace mc;
#ifndef MC_PART
#define MC_PART 0
#endif
#ifndef MC_FORMS
#define MC_FORMS 0
#endif

#ifndef MC_DEEP
#define MC_CATS3 2
#define MC_FOUR VY
#else
#define MC_CATS3 3
#define MC_FOUR VX
#endif
typedef boost::variant<TT<0>, boost::recursive_wrapper<TN<1> >, NT<2> > VX;
typedef boost::variant<CO<3>, TT<4> > VY;
typedef boost::variant<MO<5>, boost::blank, MOT<6> > VZ;

template <class V> struct Alts;
template <> struct Alts<VX> {
    enum { N = 3, H = 2 };
    static int id(int w) { return w; }
    static VX* make(int i) { return i == 0 ? new VX(TT<0>(1)) : i == 1 ? new VX(TN<1>(1)) : new VX(NT<2>(1)); }
    static bool bomb(VX& v) { return v.which() == 0 ? drive_to_heap<VX, NT<2> >(v, 9) : drive_to_heap<VX, TT<0> >(v, 9); }
};
template <> struct Alts<VY> {
    enum { N = 2, H = 2 };
    static int id(int w) { return 3 + w; }
    static VY* make(int i) { return i == 0 ? new VY(CO<3>(1)) : new VY(TT<4>(1)); }
    static bool bomb(VY& v) { return v.which() == 0 ? drive_to_heap<VY, TT<4> >(v, 9) : drive_to_heap<VY, CO<3> >(v, 9); }
};
template <> struct Alts<VZ> {
    enum { N = 3, H = 1 };
    static int id(int w) { return w == 0 ? 5 : w == 1 ? 99 : 6; }
    static VZ* make(int i) { return i == 0 ? new VZ(MO<5>(1)) : i == 1 ? new VZ(boost::blank()) : new VZ(MOT<6>(1)); }
    static bool bomb(VZ&) { return false; }
};

struct Arg { int id, cat; const void* p; bool live; };
static int ncalls, nargs, visitor_copies;
static Arg args[8];
static int ext;
static bool do_throw;
struct Boom { int n; };

template <class U, class E> typename std::enable_if<std::is_base_of<Core, U>::value, E>::type& as_core(U&, E& e) { return e; }
template <class U> int id_of(const U*) { return U::TID % 64; }
inline int id_of(const boost::blank*) { return 99; }
template <class U> bool live_of(const U* u) { return is_live(static_cast<const Core*>(u), U::TID); }
inline bool live_of(const boost::blank*) { return true; }

template <class T> void rec1(typename std::remove_reference<T>::type& t) {
    typedef typename std::remove_reference<T>::type U;
    Arg& a = args[nargs++];
    a.p = &t; a.id = id_of(&t); a.live = live_of(&t);
    a.cat = (std::is_lvalue_reference<T>::value ? 0 : 2) + (std::is_const<U>::value ? 1 : 0);
}
template <class... T> void rec(typename std::remove_reference<T>::type&... t) {
    ++ncalls; nargs = 0;
    int dummy[] = { (rec1<T>(t), 0)... }; (void)dummy;
    if (do_throw) throw Boom{ 77 };
}
template <class R> struct Make;
template <> struct Make<void> { static void get() {} template <class F> static bool ok(F f) { f(); return true; } };
template <> struct Make<int> { static int get() { return 100 + nargs; } template <class F> static bool ok(F f) { return f() == 100 + nargs; } };
template <> struct Make<int&> { static int& get() { ext = 100 + nargs; return ext; } template <class F> static bool ok(F f) { int& r = f(); return &r == &ext && r == 100 + nargs; } };
template <> struct Make<std::unique_ptr<int> > { static std::unique_ptr<int> get() { return std::unique_ptr<int>(new int(100 + nargs)); } template <class F> static bool ok(F f) { std::unique_ptr<int> p = f(); return p && *p == 100 + nargs; } };

template <class R> struct CVis : boost::static_visitor<R> {
    CVis() {}
    CVis(const CVis&) { ++visitor_copies; }
    template <class... T> R operator()(T&&... t) const { rec<T...>(t...); return Make<R>::get(); }
};
template <class R> struct MVis : boost::static_visitor<R> {
    int state;
    MVis() : state(0) {}
    MVis(const MVis&) { ++visitor_copies; }
    template <class... T> R operator()(T&&... t) { ++state; rec<T...>(t...); return Make<R>::get(); }
};
#if __cplusplus >= 201402L
// a function object without result_type
struct GVis { template <class... T> int operator()(T&&... t) const { rec<T...>(t...); return 100 + nargs; } };
#endif

template <class V, int C> struct Op { enum { cat = C }; V* v; V& get() const { return *v; } };
template <class V> struct Op<V, 1> { enum { cat = 1 }; V* v; const V& get() const { return *v; } };
template <class V> struct Op<V, 2> { enum { cat = 2 }; V* v; V&& get() const { return std::move(*v); } };
template <class V> struct Op<V, 3> { enum { cat = 3 }; V* v; const V&& get() const { return std::move(const_cast<const V&>(*v)); } };

struct Want { int id, cat; const void* p; };
struct Snap { const void* p; std::size_t n; std::string bytes; Snap(const void* q, std::size_t k) : p(q), n(k), bytes((const char*)q, k) {} bool same() const { return !memcmp(p, bytes.data(), n); } };

template <class O, class V> void want(std::vector<Want>& w, std::vector<Snap>& s, const O&, V* v) {
    AddrOf a; const V& c = *v;
    Want x = { Alts<V>::id(v->which()), O::cat, c.apply_visitor(a) };
    w.push_back(x);
    s.push_back(Snap(v, sizeof *v));
}
template <class R, class Call, class... O> void one(Suite& s, const char* form, Call call, const O&... o) {
    std::vector<Want> w; std::vector<Snap> snaps;
    int dummy[] = { (want(w, snaps, o, o.v), 0)... }; (void)dummy;
    ncalls = nargs = visitor_copies = 0;
    bool ok = true, caught = false;
    ++s.calls;
    {
        Arm arm(0, 0);
        try { ok = Make<R>::ok(call); } catch (const Boom& b) { caught = b.n == 77; }
    }
    MC_CHECK(caught == do_throw, "%s: the visitor's exception did not propagate", form);
    MC_CHECK(do_throw || ok, "%s: the visitor's result did not come back", form);
    MC_CHECK(ncalls == 1, "%s: %d calls of the visitor", form, ncalls);
    MC_CHECK(nargs == int(sizeof...(O)), "%s: %d arguments", form, nargs);
    MC_CHECK(W().copies == 0 && W().moves == 0, "%s: content was copied or moved", form);
    MC_CHECK(visitor_copies == 0, "%s: the visitor was copied", form);
    std::string out = form;
    for (std::size_t i = 0; i < w.size() && int(i) < nargs; ++i) {
        MC_CHECK(args[i].id == w[i].id, "%s: argument %d has type %d instead of %d", form, int(i), args[i].id, w[i].id);
        MC_CHECK(args[i].p == w[i].p, "%s: argument %d is not the content of operand %d", form, int(i), int(i));
        MC_CHECK(args[i].live, "%s: argument %d is not alive", form, int(i));
        MC_CHECK(args[i].cat == w[i].cat, "%s: argument %d has category %d instead of %d", form, int(i), args[i].cat, w[i].cat);
        MC_CHECK(snaps[i].same(), "%s: operand %d was changed", form, int(i));
        out += " " + std::to_string(args[i].id) + "/" + std::to_string(args[i].cat);
    }
    s.outcomes.insert(out);
}

// the forms of one part
template <class... O> struct AllForms {
    static void go(Suite& s, const O&... o) {
#if MC_PART < 4
#define FORM (MC_PART)
#else
#define FORM (MC_FORMS)      // 3 and more operands: 0 const visitors, 1 mutable ones, 2 temporaries
#endif
#if FORM == 0
        { const CVis<int> vis{}; one<int>(s, "const visitor", [&]() -> int { return boost::apply_visitor(vis, o.get()...); }, o...); }
        { const CVis<int> vis{}; do_throw = true; one<int>(s, "throwing visitor", [&]() -> int { return boost::apply_visitor(vis, o.get()...); }, o...); do_throw = false; }
#elif FORM == 1
        { MVis<int&> vis; one<int&>(s, "stateful visitor", [&]() -> int& { return boost::apply_visitor(vis, o.get()...); }, o...); MC_CHECK(vis.state == 1, "the visitor's state was not changed"); }
#elif FORM == 2
        one<std::unique_ptr<int> >(s, "temporary visitor", [&]() -> std::unique_ptr<int> { return boost::apply_visitor(CVis<std::unique_ptr<int> >(), o.get()...); }, o...);
#elif FORM == 3
        { MVis<void> vis; one<void>(s, "void visitor", [&]() -> void { return boost::apply_visitor(vis, o.get()...); }, o...); MC_CHECK(vis.state == 1, "the visitor's state was not changed"); }
#endif
#if __cplusplus >= 201402L
#if FORM == 0
        { auto l = [](auto&&... t) { rec<decltype(t)...>(t...); return 100 + nargs; }; one<int>(s, "generic lambda", [&]() -> int { return boost::apply_visitor(l, o.get()...); }, o...); }
#elif FORM == 1
        { int n = 0; auto l = [&n](auto&&... t) mutable -> int& { ++n; rec<decltype(t)...>(t...); ext = 100 + nargs; return ext; }; one<int&>(s, "mutable lambda", [&]() -> int& { return boost::apply_visitor(l, o.get()...); }, o...); MC_CHECK(n == 1, "captured state"); }
#elif FORM == 2
        one<std::unique_ptr<int> >(s, "temporary lambda", [&]() -> std::unique_ptr<int> { return boost::apply_visitor([](auto&&... t) { rec<decltype(t)...>(t...); return std::make_unique<int>(100 + nargs); }, o.get()...); }, o...);
#else
        { const GVis g{}; one<int>(s, "function object", [&]() -> int { return boost::apply_visitor(g, o.get()...); }, o...); }
#endif
#endif
    }
};
// all categories of the remaining operands; K categories each
template <int K, class... V> struct Cats;
template <int K> struct Cats<K> { template <class... O> static void go(Suite& s, const O&... o) { AllForms<O...>::go(s, o...); } };
template <int K, int C> struct EachCat {
    template <class V, class Next, class... O> static void go(Suite& s, V* v, Next next, const O&... o);
};
template <class V, int C> Op<V, C> mk(V* v) { Op<V, C> o; o.v = v; return o; }
template <class Tup, class... O> struct Walk;
template <class... O> struct Walk<std::tuple<>, O...> { template <int K> static void go(Suite& s, std::tuple<>, const O&... o) { AllForms<O...>::go(s, o...); } };
template <class V, class... R> std::tuple<R...> tl(const std::tuple<V, R...>& t);
template <class V> std::tuple<> tail(const std::tuple<V>&) { return std::tuple<>(); }
template <class V, class A> std::tuple<A> tail(const std::tuple<V, A>& t) { return std::tuple<A>(std::get<1>(t)); }
template <class V, class A, class B> std::tuple<A, B> tail(const std::tuple<V, A, B>& t) { return std::tuple<A, B>(std::get<1>(t), std::get<2>(t)); }
template <class V, class A, class B, class C> std::tuple<A, B, C> tail(const std::tuple<V, A, B, C>& t) { return std::tuple<A, B, C>(std::get<1>(t), std::get<2>(t), std::get<3>(t)); }
template <class V, class... R, class... O> struct Walk<std::tuple<V*, R...>, O...> {
    template <int K> static void go(Suite& s, const std::tuple<V*, R...>& t, const O&... o) {
        V* v = std::get<0>(t); std::tuple<R...> r = tail(t);
        Walk<std::tuple<R...>, O..., Op<V, 0> >::template go<K>(s, r, o..., mk<V, 0>(v));
        Walk<std::tuple<R...>, O..., Op<V, 2> >::template go<K>(s, r, o..., mk<V, 2>(v));
        more<K>(s, v, r, std::integral_constant<bool, (K > 2)>(), o...);
        more4<K>(s, v, r, std::integral_constant<bool, (K > 3)>(), o...);
    }
    template <int K> static void more(Suite&, V*, const std::tuple<R...>&, std::false_type, const O&...) {}
    template <int K> static void more(Suite& s, V* v, const std::tuple<R...>& r, std::true_type, const O&... o) { Walk<std::tuple<R...>, O..., Op<V, 1> >::template go<K>(s, r, o..., mk<V, 1>(v)); }
    template <int K> static void more4(Suite&, V*, const std::tuple<R...>&, std::false_type, const O&...) {}
    template <int K> static void more4(Suite& s, V* v, const std::tuple<R...>& r, std::true_type, const O&... o) { Walk<std::tuple<R...>, O..., Op<V, 3> >::template go<K>(s, r, o..., mk<V, 3>(v)); }
};

// prepared operands: alternative and, where possible, content kept on the heap
template <class V> struct Prepared {
    std::unique_ptr<V> v; bool ok;
    Prepared(int k) : v(Alts<V>::make(k % Alts<V>::N)), ok(true) { if (k >= Alts<V>::N) ok = Alts<V>::bomb(*v); }
    static int count() { return Alts<V>::N * Alts<V>::H; }
};
template <class V> std::string nm(int k) { return std::to_string(Alts<V>::id(k % Alts<V>::N)) + (k >= Alts<V>::N ? "h" : ""); }

template <int K, class A, class B> void two(Suite& s, const char* n) {
    for (int i = 0; i < Prepared<A>::count(); ++i) for (int j = 0; j < Prepared<B>::count(); ++j) {
        s.state(std::string(n) + nm<A>(i) + nm<B>(j));
        s.run(std::string(n) + "/" + nm<A>(i) + "," + nm<B>(j), [&] {
            Prepared<A> a(i); Prepared<B> b(j);
            if (a.ok && b.ok) Walk<std::tuple<A*, B*> >::template go<K>(s, std::make_tuple(a.v.get(), b.v.get()));
        });
    }
}
template <int K, class A, class B, class C> void three(Suite& s, const char* n) {
    for (int i = 0; i < Prepared<A>::count(); ++i) for (int j = 0; j < Prepared<B>::count(); ++j) for (int k = 0; k < Prepared<C>::count(); ++k) {
        s.state(std::string(n) + nm<A>(i) + nm<B>(j) + nm<C>(k));
        s.run(std::string(n) + "/" + nm<A>(i) + "," + nm<B>(j) + "," + nm<C>(k), [&] {
            Prepared<A> a(i); Prepared<B> b(j); Prepared<C> c(k);
            if (a.ok && b.ok && c.ok) Walk<std::tuple<A*, B*, C*> >::template go<K>(s, std::make_tuple(a.v.get(), b.v.get(), c.v.get()));
        });
    }
}
template <int K, class A, class B, class C, class D> void four(Suite& s, const char* n) {
    for (int i = 0; i < Alts<A>::N; ++i) for (int j = 0; j < Alts<B>::N; ++j) for (int k = 0; k < Alts<C>::N; ++k) for (int l = 0; l < Alts<D>::N; ++l) {
        std::string id = std::string(n) + "/" + nm<A>(i) + "," + nm<B>(j) + "," + nm<C>(k) + "," + nm<D>(l);
        s.state(id);
        s.run(id, [&] {
            Prepared<A> a(i); Prepared<B> b(j); Prepared<C> c(k); Prepared<D> d(l);
            Walk<std::tuple<A*, B*, C*, D*> >::template go<K>(s, std::make_tuple(a.v.get(), b.v.get(), c.v.get(), d.v.get()));
        });
    }
}
template <class A, class B, int C1, int C2, int C3, int C4, int C5> void five(Suite& s, const char* n) {
    for (int m = 0; m < 32; ++m) {
        std::string id = std::string(n) + "/" + std::to_string(m);
        s.state(id);
        s.run(id, [&] {
            Prepared<A> a(m & 1), c(m >> 2 & 1), e(m >> 4 & 1); Prepared<B> b(m >> 1 & 1), d(m >> 3 & 1);
            AllForms<Op<A, C1>, Op<B, C2>, Op<A, C3>, Op<B, C4>, Op<A, C5> >::go(s, mk<A, C1>(a.v.get()), mk<B, C2>(b.v.get()), mk<A, C3>(c.v.get()), mk<B, C4>(d.v.get()), mk<A, C5>(e.v.get()));
        });
    }
}
// the same variant as several operands
template <class V> void same(Suite& s, const char* n) {
    for (int i = 0; i < Prepared<V>::count(); ++i) {
        s.run(std::string("same/") + n + nm<V>(i), [&] {
            Prepared<V> p(i); if (!p.ok) return;
            V* v = p.v.get();
            Op<V, 0> a = mk<V, 0>(v); Op<V, 1> c = mk<V, 1>(v);
            AllForms<Op<V, 0>, Op<V, 0> >::go(s, a, a);
            AllForms<Op<V, 0>, Op<V, 1> >::go(s, a, c);
            AllForms<Op<V, 1>, Op<V, 1> >::go(s, c, c);
            AllForms<Op<V, 0>, Op<V, 0>, Op<V, 0> >::go(s, a, a, a);
            AllForms<Op<V, 1>, Op<V, 0>, Op<V, 1> >::go(s, c, a, c);
        });
    }
}

// three operands with const ones, all positions
template <class A, class B, class C> struct AllConst {
    static void go(Suite& s) {
        for (int i = 0; i < Alts<A>::N; ++i) for (int j = 0; j < Alts<B>::N; ++j) for (int k = 0; k < Alts<C>::N; ++k)
            s.run("const3/" + nm<A>(i) + "," + nm<B>(j) + "," + nm<C>(k), [&] {
                Prepared<A> a(i); Prepared<B> b(j); Prepared<C> c(k);
                AllForms<Op<A, 1>, Op<B, 0>, Op<C, 2> >::go(s, mk<A, 1>(a.v.get()), mk<B, 0>(b.v.get()), mk<C, 2>(c.v.get()));
                AllForms<Op<A, 2>, Op<B, 1>, Op<C, 0> >::go(s, mk<A, 2>(a.v.get()), mk<B, 1>(b.v.get()), mk<C, 0>(c.v.get()));
                AllForms<Op<A, 0>, Op<B, 2>, Op<C, 1> >::go(s, mk<A, 0>(a.v.get()), mk<B, 2>(b.v.get()), mk<C, 1>(c.v.get()));
                AllForms<Op<A, 1>, Op<B, 1>, Op<C, 1> >::go(s, mk<A, 1>(a.v.get()), mk<B, 1>(b.v.get()), mk<C, 1>(c.v.get()));
            });
    }
};

int main(int argc, char** argv) {
    run_matrix("multi", argc, argv, [](Suite& s) {
#if MC_PART < 4
        two<4, VX, VY>(s, "XY");
        two<3, VY, VX>(s, "YX");
        same<VX>(s, "X");
#elif MC_PART == 4
        two<4, VZ, VZ>(s, "ZZ");
        two<3, VX, VZ>(s, "XZ");
#elif MC_PART == 5
        three<MC_CATS3, VY, VX, VY>(s, "YXY");
#elif MC_PART == 6
        three<2, VX, VZ, VY>(s, "XZY");
        AllConst<VY, VX, VY>::go(s);
        same<VY>(s, "Y");
#elif MC_PART == 7
        four<2, VY, VY, MC_FOUR, VY>(s, "YY_Y");
#elif MC_PART == 8
        five<VY, VY, 0, 0, 0, 0, 0>(s, "lllll");
        five<VY, VY, 2, 2, 2, 2, 2>(s, "rrrrr");
        five<VY, VY, 0, 2, 1, 2, 0>(s, "lrcrl");
        five<VY, VY, 2, 0, 2, 1, 2>(s, "rlrcr");
        five<VY, VY, 1, 1, 1, 1, 1>(s, "ccccc");
#endif
    });
    return 0;
}
