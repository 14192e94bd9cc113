// visitor_ptr and delayed visitation (C23): alternative x storage state x category x function form x result.
#define MC_MAIN
#include "matrix.hpp"
#include <boost/variant/visitor_ptr.hpp>
#include <boost/variant/multivisitors.hpp>
#include <algorithm>
#include <vector>
using namespace mc;
#ifndef MC_PART
#define MC_PART 0
#endif
struct Base0 : TT<9> { explicit Base0(int v) : TT<9>(v) {} };
typedef boost::variant<TT<0>, boost::recursive_wrapper<TN<1> >, int, char, TT<9>, Base0, std::string> VA;   // convertible and derived neighbours
typedef boost::variant<TT<0>, TT<2>, boost::recursive_wrapper<TN<1> > > VB;                            // can keep content outside
template <class V> struct D;
template <> struct D<VA> { enum { N = 7 }; static const char* name() { return "A"; }
    static VA* make(int i) { switch (i) { case 0: return new VA(TT<0>(1)); case 1: return new VA(TN<1>(1)); case 2: return new VA(5); case 3: return new VA('c'); case 4: return new VA(TT<9>(1)); case 5: return new VA(Base0(1)); default: return new VA(std::string("a string of some length to allocate")); } }
    static bool bomb(VA&) { return false; } };
template <> struct D<VB> { enum { N = 3 }; static const char* name() { return "B"; }
    static VB* make(int i) { switch (i) { case 0: return new VB(TT<0>(1)); case 1: return new VB(TT<2>(1)); default: return new VB(TN<1>(1)); } }
    static bool bomb(VB& v) { return v.which() == 0 ? drive_to_heap<VB, TT<2> >(v, 9) : drive_to_heap<VB, TT<0> >(v, 9); } };
template <class T> struct Ix; template <> struct Ix<TT<0> > { enum { a = 0, b = 0 }; }; template <> struct Ix<TN<1> > { enum { a = 1, b = 2 }; }; template <> struct Ix<int> { enum { a = 2, b = -1 }; };
template <> struct Ix<char> { enum { a = 3, b = -1 }; }; template <> struct Ix<TT<9> > { enum { a = 4, b = -1 }; }; template <> struct Ix<Base0> { enum { a = 5, b = -1 }; }; template <> struct Ix<std::string> { enum { a = 6, b = -1 }; };
template <> struct Ix<TT<2> > { enum { a = -1, b = 1 }; }; template <> struct Ix<double> { enum { a = -1, b = -1 }; }; template <> struct Ix<unsigned char> { enum { a = -1, b = -1 }; };
template <class V, class T> int ix() { return std::is_same<V, VA>::value ? int(Ix<T>::a) : int(Ix<T>::b); }

static int calls, boom; static const void* seen; static int ext;
struct Boom { int n; };
template <class R> struct Make; template <> struct Make<void> { static void get() {} static const char* n() { return "void"; } }; template <> struct Make<int> { static int get() { return 42; } static const char* n() { return "int"; } };
template <> struct Make<int&> { static int& get() { return ext; } static const char* n() { return "int&"; } }; template <> struct Make<std::string> { static std::string get() { return std::string(40, 'r'); } static const char* n() { return "string"; } };
template <> struct Make<const void*> { static const void* get() { return seen; } static const char* n() { return "pointer"; } };
template <class R, class P> R fun(P p) { ++calls; seen = &p; if (boom) throw Boom{ boom }; return Make<R>::get(); }

template <class R> struct Check { template <class F> static void call(F f, const char* id) { R r = f(); (void)id; check(r, id); }
    static void check(int v, const char* id) { MC_CHECK(v == 42, "%s: the result is %d", id, v); } static void check(const std::string& v, const char* id) { MC_CHECK(v == std::string(40, 'r'), "%s: the result is wrong", id); } static void check(const void* v, const char* id) { MC_CHECK(v == seen, "%s: the result is wrong", id); } };
template <> struct Check<void> { template <class F> static void call(F f, const char*) { f(); } };
template <> struct Check<int&> { template <class F> static void call(F f, const char* id) { int& r = f(); MC_CHECK(&r == &ext, "%s: the result is another object", id); } };

// C: 0 lvalue, 1 const, 2 rvalue, 3 const rvalue.  form: 0 value, 1 const reference, 2 reference
template <class V, class T, class P, class R> void ptr_case(Suite& s, const char* tn, const char* fn, int form) {
    for (int i = 0; i < D<V>::N; ++i) for (int st = 0; st < 2; ++st) for (int c = 0; c < 4; ++c) for (int th = 0; th < 2; ++th) for (int how = 0; how < 3; ++how) {
        std::string id = std::string("visitor_ptr/") + D<V>::name() + "/" + std::to_string(i) + (st ? "kept" : "") + "/cat" + std::to_string(c) + "/" + tn + fn + "->" + Make<R>::n() + (th ? "/throws" : "") + "/how" + std::to_string(how);
        s.run(id, [&] {
            std::unique_ptr<V> v(D<V>::make(i));
            if (st && !D<V>::bomb(*v)) return;
            s.state(id.substr(0, id.find("/cat")));
            // a function taking a mutable reference cannot be given constant content or an rvalue
            bool match = ix<V, T>() == i && !(form == 2 && c != 0);
            const V& cv = *v; AddrOf ao; const void* addr = boost::apply_visitor(ao, cv);
            calls = 0; seen = 0; boom = th ? 7 : 0; int result = 0;    // 1 returned, 2 bad_visit, 3 Boom
            const boost::visitor_ptr_t<typename std::remove_const<P>::type, R> pc = boost::visitor_ptr(&fun<R, P>);
            boost::visitor_ptr_t<typename std::remove_const<P>::type, R> p = pc;
            long c0; long moved;
            {
                Arm arm(0, 0);
                try {
                    Check<R>::call([&]() -> R {
                        switch (how * 4 + c) {
                        case 0: return boost::apply_visitor(p, *v); case 1: return boost::apply_visitor(p, cv); case 2: return boost::apply_visitor(p, std::move(*v)); case 3: return boost::apply_visitor(p, static_cast<const V&&>(*v));
                        case 4: return v->apply_visitor(p); case 5: return cv.apply_visitor(p); case 6: return std::move(*v).apply_visitor(p); case 7: return static_cast<const V&&>(*v).apply_visitor(p);
                        case 8: return boost::apply_visitor(pc, *v); case 9: return boost::apply_visitor(pc, cv); case 10: return boost::apply_visitor(pc, std::move(*v)); default: return boost::apply_visitor(boost::visitor_ptr(&fun<R, P>), cv);
                        }
                    }, id.c_str());
                    result = 1;
                } catch (const boost::bad_visit& e) { result = 2; MC_CHECK(std::string(e.what()).find("bad_visit") != std::string::npos, "%s: what()", id.c_str()); } catch (const Boom& b) { result = 3; MC_CHECK(b.n == 7, "another exception"); }
                c0 = W().copies; moved = W().moves;
            }
            ++s.calls; boom = 0;
            // for rvalues and mutable reference parameters both outcomes depend on the binding rules only
            if (form == 2 && ix<V, T>() == i && c >= 2) { MC_CHECK(result == 2 ? calls == 0 : calls == 1, "%s: %d calls", id.c_str(), calls); }
            else {
                MC_CHECK(result == (match ? (th ? 3 : 1) : 2), "%s: %s", id.c_str(), result == 1 ? "returned" : result == 2 ? "threw bad_visit" : "threw the function's exception");
                MC_CHECK(calls == (match ? 1 : 0), "%s: the function was called %d times", id.c_str(), calls);
            }
            if (calls && form) MC_CHECK(seen == addr, "%s: the function was given another object", id.c_str());
            if (calls && form == 0) MC_CHECK(seen != addr && c0 + moved <= 1, "%s: %ld copies", id.c_str(), c0);
            if (form) MC_CHECK(c0 == 0 && moved == 0, "%s: content was copied", id.c_str());
            MC_CHECK(v->which() == i && boost::apply_visitor(ao, cv) == addr, "%s: the variant was changed", id.c_str());
            s.outcomes.insert(id.substr(0, id.find("/how")) + std::to_string(result));
            v.reset();
        });
    }
}
template <class V, class T> void ptr_type(Suite& s, const char* tn) {
    ptr_case<V, T, T, int>(s, tn, "", 0); ptr_case<V, T, const T&, int>(s, tn, " const&", 1); ptr_case<V, T, T&, int>(s, tn, "&", 2);
    ptr_case<V, T, const T&, void>(s, tn, " const&", 1);
#if MC_PART == 0
    ptr_case<V, T, const T&, int&>(s, tn, " const&", 1);
    ptr_case<V, T, T&, const void*>(s, tn, "&", 2); ptr_case<V, T, const T&, std::string>(s, tn, " const&", 1); ptr_case<V, T, T&, void>(s, tn, "&", 2);
#endif
}

// ---- delayed ---------------------------------------------------------------------------------------------
struct Rec { const void* p[3]; int tid[3], cat[3], n, calls, self; };
static Rec R; static int vcopies;
template <class T> struct Tid { enum { value = T::TID }; }; template <> struct Tid<int> { enum { value = -1 }; }; template <> struct Tid<char> { enum { value = -2 }; }; template <> struct Tid<std::string> { enum { value = -3 }; };
template <> struct Tid<Base0> { enum { value = -4 }; };
template <class T> void note(int k, T& t) { R.p[k] = &t; R.tid[k] = Tid<typename std::remove_const<T>::type>::value; R.cat[k] = std::is_const<T>::value; R.n = k + 1; }
struct NoResultType {};
template <class Res, class Base = boost::static_visitor<Res> > struct Dv : Base {
    int uses; Dv() : uses(0) {} Dv(const Dv& o) : uses(o.uses) { ++vcopies; }
    template <class A> Res operator()(A& a) { ++uses; ++R.calls; R.self = 0; note(0, a); if (boom) throw Boom{ boom }; return Make<Res>::get(); }
    template <class A> Res operator()(A& a) const { ++R.calls; R.self = 1; note(0, a); if (boom) throw Boom{ boom }; return Make<Res>::get(); }
    template <class A, class B> Res operator()(A& a, B& b) { ++uses; ++R.calls; R.self = 0; note(0, a); note(1, b); if (boom) throw Boom{ boom }; return Make<Res>::get(); }
    template <class A, class B> Res operator()(A& a, B& b) const { ++R.calls; R.self = 1; note(0, a); note(1, b); if (boom) throw Boom{ boom }; return Make<Res>::get(); }
    template <class A, class B, class C> Res operator()(A& a, B& b, C& c) { ++uses; ++R.calls; R.self = 0; note(0, a); note(1, b); note(2, c); if (boom) throw Boom{ boom }; return Make<Res>::get(); }
    template <class A, class B, class C> Res operator()(A& a, B& b, C& c) const { ++R.calls; R.self = 1; note(0, a); note(1, b); note(2, c); if (boom) throw Boom{ boom }; return Make<Res>::get(); }
};
struct Guarded { int how; };   // 0 returned, 1 Boom
template <class Res, class F> int guard(F f, const char* id) { try { Check<Res>::call(f, id); return 0; } catch (const Boom& b) { MC_CHECK(b.n == 7, "another exception"); return 1; } }
inline bool same(const Rec& a, const Rec& b) { if (a.n != b.n || a.calls != b.calls || a.self != b.self) return false; for (int i = 0; i < a.n; ++i) if (a.p[i] != b.p[i] || a.tid[i] != b.tid[i] || a.cat[i] != b.cat[i]) return false; return true; }

template <class Res, class Imm, class Del> void compare(Suite& s, const std::string& id, Imm imm, Del del, int th, int times) {
    for (int k = 0; k < times; ++k) {
        memset(&R, 0, sizeof R); boom = th ? 7 : 0; seen = 0;
        int a = guard<Res>(imm, id.c_str()); Rec ra = R;
        memset(&R, 0, sizeof R);
        vcopies = 0; int b; { Arm arm(0, 0); b = guard<Res>(del, id.c_str()); } Rec rb = R; s.calls += 2; boom = 0;
        MC_CHECK(a == b, "%s: outcomes differ", id.c_str());
        MC_CHECK(rb.calls == 1 && same(ra, rb), "%s: the delayed call is not the direct one (%d calls)", id.c_str(), rb.calls);
        MC_CHECK(vcopies == 0 && !W().copies && !W().moves && (!W().allocs || std::is_same<Res, std::string>::value), "%s: something was copied", id.c_str());
        s.outcomes.insert(id.substr(0, 30) + std::to_string(b) + std::to_string(rb.tid[0]) + std::to_string(rb.tid[1]));
    }
}
template <class V, class U, class Res, class Base = boost::static_visitor<Res> > void delayed(Suite& s) {
    typedef Dv<Res, Base> DV;
    for (int th = 0; th < 2; ++th) for (int i = 0; i < D<V>::N; ++i) for (int st = 0; st < 2; ++st) {
        std::string id = std::string("delayed/") + D<V>::name() + D<U>::name() + (std::is_same<Base, NoResultType>::value ? "no-result-type" : "") + "/" + Make<Res>::n() + "/" + std::to_string(i) + (st ? "kept" : "") + (th ? "/throws" : "");
        s.run(id + "/one", [&] {
            std::unique_ptr<V> v(D<V>::make(i)); if (st && !D<V>::bomb(*v)) return;
            const V& c = *v; DV vis; const DV cvis; s.state(id);
            auto d = boost::apply_visitor(vis); auto e = d; auto f = boost::apply_visitor(cvis);
            compare<Res>(s, id + "/one", [&]() -> Res { return boost::apply_visitor(vis, *v); }, [&]() -> Res { return d(*v); }, th, 2);
            compare<Res>(s, id + "/one-const", [&]() -> Res { return boost::apply_visitor(vis, c); }, [&]() -> Res { return e(c); }, th, 2);
            compare<Res>(s, id + "/const-visitor", [&]() -> Res { return boost::apply_visitor(cvis, *v); }, [&]() -> Res { return f(*v); }, th, 1);
            compare<Res>(s, id + "/const-visitor-const", [&]() -> Res { return boost::apply_visitor(cvis, c); }, [&]() -> Res { return f(c); }, th, 1);
            MC_CHECK(vis.uses == 8, "%s: the visitor was used %d times instead of 8", id.c_str(), vis.uses);
        });
        for (int j = 0; j < D<U>::N; ++j) for (int t = 0; t < 2; ++t) s.run(id + "/two" + std::to_string(j) + (t ? "kept" : ""), [&] {
            std::unique_ptr<V> v(D<V>::make(i)); if (st && !D<V>::bomb(*v)) return;
            std::unique_ptr<U> u(D<U>::make(j)); if (t && !D<U>::bomb(*u)) return;
            s.state(id + std::to_string(j) + (t ? "k" : ""));
            const V& c = *v; const U& k = *u; DV vis; const DV cvis;
            auto d = boost::apply_visitor(vis); auto f = boost::apply_visitor(cvis);
            compare<Res>(s, id + "/two", [&]() -> Res { return boost::apply_visitor(vis, *v, *u); }, [&]() -> Res { return d(*v, *u); }, th, 2);
            compare<Res>(s, id + "/two", [&]() -> Res { return boost::apply_visitor(vis, c, *u); }, [&]() -> Res { return d(c, *u); }, th, 1);
            compare<Res>(s, id + "/two", [&]() -> Res { return boost::apply_visitor(vis, *v, k); }, [&]() -> Res { return d(*v, k); }, th, 1);
            compare<Res>(s, id + "/two", [&]() -> Res { return boost::apply_visitor(cvis, c, k); }, [&]() -> Res { return f(c, k); }, th, 1);
            compare<Res>(s, id + "/two-same", [&]() -> Res { return boost::apply_visitor(vis, *v, *v); }, [&]() -> Res { return d(*v, *v); }, th, 1);
#if MC_PART == 3 || MC_PART == 4
            compare<Res>(s, id + "/three", [&]() -> Res { return boost::apply_visitor(vis, *v, k, *v); }, [&]() -> Res { return d(*v, k, *v); }, th, 1);
            compare<Res>(s, id + "/three", [&]() -> Res { return boost::apply_visitor(cvis, *u, c, k); }, [&]() -> Res { return f(*u, c, k); }, th, 1);
#endif
            MC_CHECK(vis.uses >= 8, "%s: the visitor was used %d times", id.c_str(), vis.uses);
        });
    }
}
struct Name : boost::static_visitor<int> { int operator()(const TT<0>&) const { return 1; } int operator()(const TT<2>&) const { return 2; } int operator()(const TN<1>&) const { return 3; } };
void algorithms(Suite& s) {   // the use the adaptor exists for
    for (int n = 0; n <= 4; ++n) { int total = 1; for (int k = 0; k < n; ++k) total *= 3; for (int code = 0; code < total; ++code) s.run("algorithm/" + std::to_string(n) + "/" + std::to_string(code), [&] {
        std::vector<VB> vs; std::vector<int> want, got(n);
        for (int k = 0, c = code; k < n; ++k, c /= 3) { std::unique_ptr<VB> v(D<VB>::make(c % 3)); vs.push_back(*v); want.push_back(c % 3 + 1); }
        Name nm; std::transform(vs.begin(), vs.end(), got.begin(), boost::apply_visitor(nm)); ++s.calls;
        MC_CHECK(got == want, "transform over a sequence of variants");
#if __cplusplus >= 201402L
        auto lam = [](const auto& t) { return int(std::decay<decltype(t)>::type::TID); }; std::vector<int> g2(n); std::transform(vs.begin(), vs.end(), g2.begin(), boost::apply_visitor(lam)); ++s.calls;
        for (int k = 0; k < n; ++k) MC_CHECK(g2[k] == (want[k] == 1 ? int(TT<0>::TID) : want[k] == 2 ? int(TT<2>::TID) : int(TN<1>::TID)), "delayed lambda");
        auto ref = [](auto& t) -> int& { return t.val; }; auto dr = boost::apply_visitor(ref); for (int k = 0; k < n; ++k) { int& r = dr(vs[k]); r = 20 + k; } ++s.calls;
        for (int k = 0; k < n; ++k) { AddrOf ao; (void)ao; int x = boost::apply_visitor([](const auto& t) { return t.val; }, vs[k]); MC_CHECK(x == 20 + k, "a delayed lambda's reference result"); }
        if (n >= 2) { auto two = [](auto& a, auto& b) -> int { return a.val * 100 + b.val; }; auto d2 = boost::apply_visitor(two); int x = d2(vs[0], vs[1]); ++s.calls; MC_CHECK(x == 20 * 100 + 21, "a delayed binary lambda"); }
#endif
    }); }
}
int main(int argc, char** argv) {
    run_matrix("vptr", argc, argv, [](Suite& s) {
#if MC_PART == 0
        ptr_type<VB, TT<0> >(s, "TT0"); ptr_type<VB, TT<2> >(s, "TT2"); ptr_type<VB, TN<1> >(s, "TN1"); ptr_type<VB, int>(s, "int");
#elif MC_PART == 1
        ptr_type<VA, TT<0> >(s, "TT0"); ptr_type<VA, TN<1> >(s, "TN1"); ptr_type<VA, int>(s, "int"); ptr_type<VA, char>(s, "char"); ptr_type<VA, TT<9> >(s, "TT9"); ptr_type<VA, Base0>(s, "Base0"); ptr_type<VA, std::string>(s, "string"); ptr_type<VA, double>(s, "double"); ptr_type<VA, unsigned char>(s, "unsigned char");
#elif MC_PART == 2
        delayed<VB, VA, int>(s); delayed<VA, VB, void>(s); algorithms(s);
#elif MC_PART == 3
        delayed<VB, VB, int&>(s); delayed<VB, VB, std::string>(s);
#elif MC_PART == 4 && __cplusplus >= 201402L
        delayed<VB, VB, int&, NoResultType>(s); delayed<VB, VB, void, NoResultType>(s); delayed<VB, VB, std::string, NoResultType>(s);
#endif
    });
    return 0;
}
