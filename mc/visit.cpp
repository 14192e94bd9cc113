// Unary visitation (C07): alternative x storage state x variant category x visitor form x result type.
#define MC_MAIN
#include "matrix.hpp"
using namespace mc;

typedef boost::variant<TT<0>, NT<1>, boost::recursive_wrapper<TN<2> >, CO<3>, BIG<4>, TT<5> > VA;      // no fallback
typedef boost::variant<int, TT<1>, boost::blank, boost::recursive_wrapper<TT<3> >, NN<4>, std::string> VB;  // fallback

template <class V> struct Alts;
template <> struct Alts<VA> {
    enum { N = 6 };
    static const char* name() { return "A"; }
    static int index(const TT<0>*) { return 0; } static int index(const NT<1>*) { return 1; } static int index(const TN<2>*) { return 2; }
    static int index(const CO<3>*) { return 3; } static int index(const BIG<4>*) { return 4; } static int index(const TT<5>*) { return 5; }
    template <class F> static void with(int i, F f) {
        switch (i) { case 0: f(TT<0>(1)); break; case 1: f(NT<1>(1)); break; case 2: f(TN<2>(1)); break; case 3: f(CO<3>(1)); break; case 4: f(BIG<4>(1)); break; case 5: f(TT<5>(1)); break; }
    }
    static bool bomb(VA& v) { if (v.which() == 0) return drive_to_heap<VA, TT<5> >(v, 9); return drive_to_heap<VA, TT<0> >(v, 9); }
};
template <> struct Alts<VB> {
    enum { N = 6 };
    static const char* name() { return "B"; }
    static int index(const int*) { return 0; } static int index(const TT<1>*) { return 1; } static int index(const boost::blank*) { return 2; }
    static int index(const TT<3>*) { return 3; } static int index(const NN<4>*) { return 4; } static int index(const std::string*) { return 5; }
    template <class F> static void with(int i, F f) {
        switch (i) { case 0: f(int(1)); break; case 1: f(TT<1>(1)); break; case 2: f(boost::blank()); break; case 3: f(TT<3>(1)); break; case 4: f(NN<4>(1)); break; case 5: f(std::string("abcdefghijklmnopqrstuvwxyz")); break; }
    }
    static bool bomb(VB&) { return false; }
};

struct Rec { int calls, idx, cat; const void* p; bool live; };
static Rec R;
static int visitor_copies;
template <class T> struct LiveOf { static bool f(const T* t) { return is_live(static_cast<const Core*>(t), T::TID); } };
template <> struct LiveOf<int> { static bool f(const int*) { return true; } };
template <> struct LiveOf<boost::blank> { static bool f(const boost::blank*) { return true; } };
template <> struct LiveOf<std::string> { static bool f(const std::string*) { return true; } };

template <class V, class T> void record(typename std::remove_reference<T>::type& t) {
    typedef typename std::remove_reference<T>::type U;
    ++R.calls; R.p = &t; R.idx = Alts<V>::index(&t);
    R.cat = (std::is_lvalue_reference<T>::value ? 0 : 2) + (std::is_const<U>::value ? 1 : 0);
    R.live = LiveOf<typename std::remove_const<U>::type>::f(&t);
}
struct Boom { int n; };
static int ext;
static bool do_throw;

template <class Res> struct Make;
template <> struct Make<void> { static void get() {} };
template <> struct Make<int> { static int get() { return 100 + R.idx; } };
template <> struct Make<int&> { static int& get() { ext = 100 + R.idx; return ext; } };
template <> struct Make<const int&> { static const int& get() { ext = 100 + R.idx; return ext; } };
template <> struct Make<std::unique_ptr<int> > { static std::unique_ptr<int> get() { return std::unique_ptr<int>(new int(100 + R.idx)); } };
template <> struct Make<const void*> { static const void* get() { return R.p; } };
template <> struct Make<std::string> { static std::string get() { return std::string(40, char('a' + R.idx)); } };
template <> struct Make<int&&> { static int&& get() { ext = 100 + R.idx; return std::move(ext); } };
struct NonDefault { int v; explicit NonDefault(int i) : v(i) {} NonDefault(const NonDefault&) = default; };
template <> struct Make<NonDefault> { static NonDefault get() { return NonDefault(100 + R.idx); } };

template <class V, class Res, bool Const> struct Vis : boost::static_visitor<Res> {
    Vis() {}
    Vis(const Vis&) { ++visitor_copies; }
    template <class T> Res operator()(T&& t) const { record<V, T>(t); if (do_throw) { MC_TRY { throw Boom{ R.idx }; } catch (...) { throw; } } return Make<Res>::get(); }
};
template <class V, class Res> struct Vis<V, Res, false> : boost::static_visitor<Res> {
    int state;
    Vis() : state(0) {}
    Vis(const Vis&) { ++visitor_copies; }
    template <class T> Res operator()(T&& t) { ++state; record<V, T>(t); if (do_throw) { throw Boom{ R.idx }; } return Make<Res>::get(); }
};
// explicit overloads instead of a template
template <class V> struct OverA : boost::static_visitor<int> {
    template <class T> int hit(T&, int cat) const { return cat; }
};
struct ExplicitA : boost::static_visitor<int> {
    typedef VA V;
#define E(T) int operator()(T& t) const { record<V, T&>(t); return 100 + R.idx; } int operator()(const T& t) const { record<V, const T&>(t); return 100 + R.idx; } int operator()(T&& t) const { record<V, T>(t); return 100 + R.idx; }
    E(TT<0>) E(NT<1>) E(TN<2>) E(CO<3>) E(BIG<4>) E(TT<5>)
#undef E
};
// one overload per type, by const reference only: usable with every variant category
struct ConstRefA : boost::static_visitor<int> {
#define E(T) int operator()(const T& t) const { record<VA, const T&>(t); return 100 + R.idx; }
    E(TT<0>) E(NT<1>) E(TN<2>) E(CO<3>) E(BIG<4>) E(TT<5>)
#undef E
};

template <class V> struct Prep;
template <class V> void prepare_and(Suite& s, int alt, St st, const std::string& id, void (*f)(V&, int, int, Suite&), int cat) {
    s.run(id, [&] {
        Alts<V>::with(alt, Prep<V>{ &s, alt, st, f, cat });
    });
}
template <class V> struct Prep {
    Suite* s; int alt; St st; void (*f)(V&, int, int, Suite&); int cat;
    template <class T> void operator()(const T& t) const {
        if (st == INPLACE) { V v(t); f(v, alt, cat, *s); }
        else if (st == MOVEDFROM) { V v(t); V w(std::move(v)); f(v, alt, cat, *s); }
        else if (st == ASSIGNED) { V v(mkother(t)); v = t; f(v, alt, cat, *s); }
        else { V v(t); if (Alts<V>::bomb(v)) f(v, alt, cat, *s); }
    }
    template <class T> V mkother(const T&) const { struct { V* r; } x; (void)x; V* made = 0; Alts<V>::with((alt + 1) % Alts<V>::N, Maker{ &made }); V v(std::move(*made)); delete made; return v; }
    struct Maker { V** out; template <class T> void operator()(const T& t) const { *out = new V(t); } };
};

static const char* cats[] = { "V&", "const V&", "V&&", "const V&&" };

// One call under test; expected content address taken from get<>.
template <class V> struct ContentAddr : boost::static_visitor<const void*> { template <class T> const void* operator()(const T& t) const { return &t; } };

template <class V, class Call> void one(V& v, int alt, int expect_cat, Suite& s, const char* form, Call call) {
    unsigned char before[sizeof(V)];
    memcpy(before, (void*)&v, sizeof v);
    ContentAddr<V> ca;
    const V& c = v;
    const void* want = c.apply_visitor(ca);
    memset(&R, 0, sizeof R); R.idx = -1; visitor_copies = 0;
    ++s.calls;
    {
        Arm arm(0, 0);
        call();
    }
    World& w = W();
    MC_CHECK(R.calls == 1, "%s: %d calls of the visitor", form, R.calls);
    MC_CHECK(R.idx == alt, "%s: the visitor was given alternative %d instead of %d", form, R.idx, alt);
    MC_CHECK(R.p == want, "%s: the visitor was given another object than the content", form);
    MC_CHECK(R.live, "%s: the object given to the visitor is not alive", form);
    MC_CHECK(expect_cat < 0 || R.cat == expect_cat, "%s: content of %s arrived as category %d", form, cats[expect_cat], R.cat);
    MC_CHECK(visitor_copies == 0, "%s: the visitor was copied", form);
    MC_CHECK(w.copies == 0 && w.moves == 0, "%s: visitation copied or moved content", form);
    MC_CHECK(v.which() == alt, "%s: which() changed", form);
    MC_CHECK(!memcmp(before, (void*)&v, sizeof v), "%s: visitation changed the variant", form);
    s.outcomes.insert(std::string(form) + std::to_string(R.idx) + ":" + std::to_string(R.cat));
}

template <class V, class Res, bool Const> struct CheckRes;

template <class Res> struct Got {
    template <class F> static bool ok(F f) { return check(f()); }
    static bool check(int v) { return v == 100 + R.idx; }
    static bool check(const void* p) { return p == R.p; }
    static bool check(const std::unique_ptr<int>& p) { return p && *p == 100 + R.idx; }
    static bool check(const std::string& p) { return p == std::string(40, char('a' + R.idx)); }
    static bool check(const NonDefault& p) { return p.v == 100 + R.idx; }
};
template <> struct Got<int&> { template <class F> static bool ok(F f) { int& r = f(); return &r == &ext && r == 100 + R.idx; } };
template <> struct Got<const int&> { template <class F> static bool ok(F f) { const int& r = f(); return &r == &ext && r == 100 + R.idx; } };
template <> struct Got<int&&> { template <class F> static bool ok(F f) { int&& r = f(); return &r == &ext && r == 100 + R.idx; } };
template <> struct Got<void> { template <class F> static bool ok(F f) { f(); return true; } };

// all variant categories through one visitor expression
template <class V, class Res, class Visitor> void by_category(V& v, int alt, int cat, Suite& s, Visitor&& vis, const char* form) {
    bool ok = true;
    const V& cv = v;
    switch (cat) {
    case 0: one(v, alt, 0, s, form, [&] { ok = Got<Res>::ok([&]() -> Res { return boost::apply_visitor(vis, v); }); }); break;
    case 1: one(v, alt, 1, s, form, [&] { ok = Got<Res>::ok([&]() -> Res { return boost::apply_visitor(vis, cv); }); }); break;
    case 2: one(v, alt, 2, s, form, [&] { ok = Got<Res>::ok([&]() -> Res { return boost::apply_visitor(vis, std::move(v)); }); }); break;
    case 3: one(v, alt, 3, s, form, [&] { ok = Got<Res>::ok([&]() -> Res { return boost::apply_visitor(vis, std::move(cv)); }); }); break;
    }
    MC_CHECK(ok, "%s: the visitor's result did not come back", form);
}
template <class V, class Res, class Visitor> void by_member(V& v, int alt, int cat, Suite& s, Visitor& vis, const char* form) {
    bool ok = true;
    const V& cv = v;
    switch (cat) {
    case 0: one(v, alt, 0, s, form, [&] { ok = Got<Res>::ok([&]() -> Res { return v.apply_visitor(vis); }); }); break;
    case 1: one(v, alt, 1, s, form, [&] { ok = Got<Res>::ok([&]() -> Res { return cv.apply_visitor(vis); }); }); break;
    case 2: one(v, alt, 2, s, form, [&] { ok = Got<Res>::ok([&]() -> Res { return std::move(v).apply_visitor(vis); }); }); break;
    case 3: one(v, alt, 3, s, form, [&] { ok = Got<Res>::ok([&]() -> Res { return std::move(cv).apply_visitor(vis); }); }); break;
    }
    MC_CHECK(ok, "%s: the visitor's result did not come back", form);
}

template <class V, class Res> void results(V& v, int alt, int cat, Suite& s) {
    do_throw = false;
    { const Vis<V, Res, true> vis; by_category<V, Res>(v, alt, cat, s, vis, "const visitor"); by_member<V, Res>(v, alt, cat, s, vis, "member, const visitor"); }
    { Vis<V, Res, true> vis; by_category<V, Res>(v, alt, cat, s, vis, "lvalue visitor"); }
    { Vis<V, Res, false> vis; by_category<V, Res>(v, alt, cat, s, vis, "stateful visitor"); MC_CHECK(vis.state == 1, "the visitor's own state was not changed"); by_member<V, Res>(v, alt, cat, s, vis, "member, stateful visitor"); MC_CHECK(vis.state == 2, "the visitor's own state was not changed"); }
    {   // temporary visitor
        bool ok = true; const V& cv = v;
        switch (cat) {
        case 0: one(v, alt, 0, s, "temporary visitor", [&] { ok = Got<Res>::ok([&]() -> Res { return boost::apply_visitor(Vis<V, Res, true>(), v); }); }); break;
        case 1: one(v, alt, 1, s, "temporary visitor", [&] { ok = Got<Res>::ok([&]() -> Res { return boost::apply_visitor(Vis<V, Res, true>(), cv); }); }); break;
        case 2: one(v, alt, 2, s, "temporary visitor", [&] { ok = Got<Res>::ok([&]() -> Res { return boost::apply_visitor(Vis<V, Res, true>(), std::move(v)); }); }); break;
        case 3: one(v, alt, 3, s, "temporary visitor", [&] { ok = Got<Res>::ok([&]() -> Res { return boost::apply_visitor(Vis<V, Res, true>(), std::move(cv)); }); }); break;
        }
        MC_CHECK(ok, "temporary visitor: the visitor's result did not come back");
    }
}
template <class V> void throwing(V& v, int alt, int cat, Suite& s) {
    do_throw = true;
    Vis<V, int, true> vis;
    const V& cv = v;
    bool caught = false; int n = -1;
    one(v, alt, cat, s, "throwing visitor", [&] {
        try {
            switch (cat) {
            case 0: boost::apply_visitor(vis, v); break;
            case 1: boost::apply_visitor(vis, cv); break;
            case 2: boost::apply_visitor(vis, std::move(v)); break;
            case 3: boost::apply_visitor(vis, std::move(cv)); break;
            }
        } catch (const Boom& b) { caught = true; n = b.n; }
    });
    do_throw = false;
    MC_CHECK(caught && n == alt, "the visitor's exception did not propagate");
}
void explicit_overloads(VA& v, int alt, int cat, Suite& s) {
    ExplicitA e; ConstRefA cr; const VA& cv = v;
    int r = 0;
    switch (cat) {
    case 0: one(v, alt, 0, s, "overloads", [&] { r = boost::apply_visitor(e, v); }); one(v, alt, 1, s, "const-ref overloads", [&] { r = boost::apply_visitor(cr, v); }); break;
    case 1: one(v, alt, 1, s, "overloads", [&] { r = boost::apply_visitor(e, cv); }); one(v, alt, 1, s, "const-ref overloads", [&] { r = boost::apply_visitor(cr, cv); }); break;
    case 2: one(v, alt, 2, s, "overloads", [&] { r = boost::apply_visitor(e, std::move(v)); }); one(v, alt, 1, s, "const-ref overloads", [&] { r = boost::apply_visitor(cr, std::move(v)); }); break;
    case 3: one(v, alt, 1, s, "const-ref overloads", [&] { r = boost::apply_visitor(cr, std::move(cv)); }); break;
    }
    MC_CHECK(r == 100 + alt, "wrong result");
}
// a visitor that writes through what it was given, then another that reads
struct Write : boost::static_visitor<> { template <class T> void operator()(T& t) const { static_cast<Core&>(t).val = 2; } };
struct Read : boost::static_visitor<int> { template <class T> int operator()(const T& t) const { return static_cast<const Core&>(t).val; } };
void writing(VA& v, int alt, int, Suite& s) {
    ++s.calls;
    Read rd;
    boost::apply_visitor(Write(), v);
    const VA& c = v;
    MC_CHECK(boost::apply_visitor(rd, c) == 2, "a write through the visitor was lost");
    MC_CHECK(v.which() == alt, "which() changed");
    VA w(c);
    MC_CHECK(boost::apply_visitor(rd, w) == 2, "a write through the visitor was lost in a copy");
}
// rvalue visitation lets the visitor take the content
struct Take : boost::static_visitor<int> { template <class T> int operator()(T&& t) const { typename std::decay<T>::type x(std::forward<T>(t)); return static_cast<Core&>(x).val; } };
void taking(VA& v, int alt, int, Suite& s) {
    ++s.calls;
    Read rd; const VA& c = v;
    int before = boost::apply_visitor(rd, c);
    { Arm arm(0, 0); int got = boost::apply_visitor(Take(), v); MC_CHECK(got == before, "lvalue visit"); MC_CHECK(W().moves == 0, "visiting an lvalue variant let the visitor move from it"); }
    MC_CHECK(boost::apply_visitor(rd, c) == before, "visiting an lvalue variant changed it");
    { Arm arm(0, 0); int got = boost::apply_visitor(Take(), std::move(v)); MC_CHECK(got == before, "rvalue visit"); MC_CHECK(alt == 3 ? W().copies == 1 : (W().moves == 1 && W().copies == 0), "visiting an rvalue variant did not let the visitor move from it"); }
    MC_CHECK(v.which() == alt, "which() changed");
}
#if __cplusplus >= 201402L
template <class V> void lambdas(V& v, int alt, int cat, Suite& s) {
    do_throw = false;
    { auto l = [](auto&& t) { record<V, decltype(t)>(t); return 100 + R.idx; }; by_category<V, int>(v, alt, cat, s, l, "generic lambda"); const auto cl = l; by_category<V, int>(v, alt, cat, s, cl, "const generic lambda"); }
    { auto l = [](auto&& t) -> int& { record<V, decltype(t)>(t); ext = 100 + R.idx; return ext; }; by_category<V, int&>(v, alt, cat, s, l, "lambda returning a reference"); }
    { auto l = [](auto&& t) { record<V, decltype(t)>(t); return std::make_unique<int>(100 + R.idx); }; by_category<V, std::unique_ptr<int> >(v, alt, cat, s, l, "lambda returning a move-only value"); }
    { auto l = [](auto&& t) { record<V, decltype(t)>(t); }; by_category<V, void>(v, alt, cat, s, l, "void lambda"); }
    { int hits = 0; auto l = [&hits](auto&& t) mutable { ++hits; record<V, decltype(t)>(t); return 100 + R.idx; }; by_category<V, int>(v, alt, cat, s, l, "mutable lambda"); MC_CHECK(hits == 1, "captured state lost"); }
}
#endif

template <class V> void all(Suite& s) {
    for (int st = 0; st < NST; ++st) for (int alt = 0; alt < Alts<V>::N; ++alt) for (int cat = 0; cat < 4; ++cat) {
        std::string base = std::string(Alts<V>::name()) + "/alt" + std::to_string(alt) + "/" + st_name(st) + "/" + cats[cat] + "/";
        s.state(std::string(Alts<V>::name()) + std::to_string(alt) + st_name(st));
#if MC_PART == 0
        prepare_and<V>(s, alt, St(st), base + "void", &results<V, void>, cat);
        prepare_and<V>(s, alt, St(st), base + "int", &results<V, int>, cat);
        prepare_and<V>(s, alt, St(st), base + "throws", &throwing<V>, cat);
#elif MC_PART == 1
        prepare_and<V>(s, alt, St(st), base + "int&", &results<V, int&>, cat);
        prepare_and<V>(s, alt, St(st), base + "const int&", &results<V, const int&>, cat);
#elif MC_PART == 2
        prepare_and<V>(s, alt, St(st), base + "int&&", &results<V, int&&>, cat);
        prepare_and<V>(s, alt, St(st), base + "unique_ptr", &results<V, std::unique_ptr<int> >, cat);
#elif MC_PART == 3
        prepare_and<V>(s, alt, St(st), base + "address", &results<V, const void*>, cat);
        prepare_and<V>(s, alt, St(st), base + "no-default", &results<V, NonDefault>, cat);
#elif MC_PART == 4
        prepare_and<V>(s, alt, St(st), base + "string", &results<V, std::string>, cat);
#if __cplusplus >= 201402L
        prepare_and<V>(s, alt, St(st), base + "lambda", &lambdas<V>, cat);
#endif
#endif
    }
}
int main(int argc, char** argv) {
    run_matrix("visit", argc, argv, [](Suite& s) {
        all<VA>(s);
        all<VB>(s);
#if MC_PART == 0
        for (int st = 0; st < NST; ++st) for (int alt = 0; alt < 6; ++alt) {
            for (int cat = 0; cat < 4; ++cat) prepare_and<VA>(s, alt, St(st), "A/alt" + std::to_string(alt) + "/" + st_name(st) + "/" + cats[cat] + "/overloads", &explicit_overloads, cat);
            prepare_and<VA>(s, alt, St(st), "A/alt" + std::to_string(alt) + "/" + st_name(st) + "/write", &writing, 0);
            prepare_and<VA>(s, alt, St(st), "A/alt" + std::to_string(alt) + "/" + st_name(st) + "/take", &taking, 0);
        }
#endif
    });
    return 0;
}
