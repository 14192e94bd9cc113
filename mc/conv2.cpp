// Conversion between different variant types (C14): source alternative and storage x target alternative and
// storage x operation x every single fault and pair of faults.
#define MC_MAIN
#include "matrix.hpp"
using namespace mc;
#ifndef MC_PART
#define MC_PART 0
#endif

// converts implicitly from TT<0> (and, as an rvalue, takes its value away)
template <int ID> struct FRM : Core {
    enum { KIND = 41, TID = ID + 41 * 64 };
    explicit FRM(int v) : Core(TID, v, false) {}
    FRM(const TT<0>& t) noexcept(false) : Core(TID, t.val, false) { touch(&t, TT<0>::TID, "conversion"); }
    FRM(TT<0>&& t) noexcept(false) : Core(TID, t.val, false) { touch(&t, TT<0>::TID, "conversion"); t.val = V_MOVED; }
    FRM(const FRM& o) noexcept(false) : Core(CopyTag(), TID, o, false) {}
    FRM(FRM&& o) noexcept(false) : Core(MoveTag(), TID, o, false) {}
    FRM& operator=(const FRM& o) { cassign(o, false); return *this; }
    FRM& operator=(FRM&& o) { massign(o, false); return *this; }
};
struct Tag { int id, val; };
struct Look : boost::static_visitor<Tag> {
    template <class T> Tag operator()(const T& t) const { if (!is_live(static_cast<const Core*>(&t), T::TID)) error(EMPTY, "there is no live object of the type the variant names"); touch(static_cast<const Core*>(&t), T::TID, "observation"); Tag g = { T::TID, t.val }; return g; }
    Tag operator()(const boost::blank&) const { Tag g = { -1, 0 }; return g; }
    Tag operator()(const int& i) const { Tag g = { -2, i }; return g; }
    template <class... T> Tag operator()(const boost::variant<T...>& v) const { Tag g = v.apply_visitor(*this); g.id += 100000; return g; }
};
template <class V> Tag look(const V& v) { Look l; return v.apply_visitor(l); }
inline bool same(Tag a, Tag b) { return a.id == b.id && a.val == b.val; }

// plain values as sources
struct OPR : Core {      // converts to TT<0> by an operator of its own
    enum { KIND = 42, TID = 42 * 64 };
    explicit OPR(int v) : Core(TID, v, false) {}
    OPR(const OPR& o) noexcept(false) : Core(CopyTag(), TID, o, false) {}
    operator TT<0>() const { touch(static_cast<const Core*>(this), TID, "conversion"); return TT<0>(val); }
};
inline Tag look(const TT<0>& t) { Look l; return l(t); }
inline Tag look(const OPR& t) { Look l; return l(t); }
template <class... T> int which_of(const boost::variant<T...>& v) { return v.which(); }
inline int which_of(const Core&) { return 0; }
struct Where : boost::static_visitor<const char*> { template <class T> const char* operator()(const T& t) const { return reinterpret_cast<const char*>(std::addressof(t)); } };
template <class V> struct Def;
// sources
typedef boost::variant<TT<0>, NT<1> > S1;
typedef boost::variant<boost::recursive_wrapper<TT<0> >, TN<2> > S2;
typedef boost::variant<TT<0>, boost::blank, NN<4> > S3;
typedef boost::make_variant_over<boost::mpl::list<TN<2>, TT<0> > >::type S4;
typedef boost::variant<TT<0>, TT<7> > S5;                          // both can be kept after a failure
// targets
typedef boost::variant<TT<7>, XTT<8>, TT<0> > D8;
typedef boost::variant<NT<1>, TT<0>, TN<2> > D1;                    // permuted superset
typedef boost::variant<FRM<3>, NT<1> > D2;                          // needs a conversion
typedef boost::variant<TN<2>, TT<0>, boost::blank, NN<4> > D3;      // with fallback
typedef boost::variant<S1, NT<5> > D4;                              // the source is a bounded type
typedef boost::variant<TN<2>, boost::recursive_wrapper<TT<0> >, NT<1> > D5;
typedef boost::variant<boost::recursive_wrapper<FRM<3> >, FRM<6>, NT<1>, TN<2>, TT<0> > D6;   // exact match wins over conversions
typedef boost::variant<S1, TT<0>, NT<1> > D7;                       // the source and its alternatives are bounded types
typedef boost::variant<TT<0>, NT<1>, boost::recursive_wrapper<S1> > D9;        // the source is bounded behind a wrapper
#define HEAPABLE(V, A, B) static bool bomb(V& v) { return look(v).id % 100000 == A::TID ? drive_to_heap<V, B >(v, 9) : drive_to_heap<V, A >(v, 9); }
#define NOHEAP(V) static bool bomb(V&) { return false; }
template <> struct Def<TT<0> > { enum { N = 1 }; static TT<0>* make(int, int v) { return new TT<0>(v); } static bool bomb(TT<0>&) { return false; } };
template <> struct Def<OPR> { enum { N = 1 }; static OPR* make(int, int v) { return new OPR(v); } static bool bomb(OPR&) { return false; } };
template <> struct Def<S1> { enum { N = 2 }; static S1* make(int i, int v) { return i == 0 ? new S1(TT<0>(v)) : new S1(NT<1>(v)); } HEAPABLE(S1, TT<0>, NT<1>) };
template <> struct Def<S2> { enum { N = 2 }; static S2* make(int i, int v) { return i == 0 ? new S2(TT<0>(v)) : new S2(TN<2>(v)); } HEAPABLE(S2, TT<0>, TN<2>) };
template <> struct Def<S3> { enum { N = 3 }; static S3* make(int i, int v) { return i == 0 ? new S3(TT<0>(v)) : i == 1 ? new S3(boost::blank()) : new S3(NN<4>(v)); } NOHEAP(S3) };
template <> struct Def<S4> { enum { N = 2 }; static S4* make(int i, int v) { return i == 0 ? new S4(TN<2>(v)) : new S4(TT<0>(v)); } HEAPABLE(S4, TT<0>, TN<2>) };
template <> struct Def<S5> { enum { N = 2 }; static S5* make(int i, int v) { return i == 0 ? new S5(TT<0>(v)) : new S5(TT<7>(v)); } HEAPABLE(S5, TT<0>, TT<7>) };
template <> struct Def<D8> { enum { N = 3 }; static D8* make(int i, int v) { return i == 0 ? new D8(TT<7>(v)) : i == 1 ? new D8(XTT<8>(v)) : new D8(TT<0>(v)); } HEAPABLE(D8, TT<0>, TT<7>) };
template <> struct Def<D1> { enum { N = 3 }; static D1* make(int i, int v) { return i == 0 ? new D1(NT<1>(v)) : i == 1 ? new D1(TT<0>(v)) : new D1(TN<2>(v)); } HEAPABLE(D1, TT<0>, TN<2>) };
template <> struct Def<D2> { enum { N = 2 }; static D2* make(int i, int v) { return i == 0 ? new D2(FRM<3>(v)) : new D2(NT<1>(v)); } HEAPABLE(D2, FRM<3>, NT<1>) };
template <> struct Def<D3> { enum { N = 4 }; static D3* make(int i, int v) { return i == 0 ? new D3(TN<2>(v)) : i == 1 ? new D3(TT<0>(v)) : i == 2 ? new D3(boost::blank()) : new D3(NN<4>(v)); } NOHEAP(D3) };
template <> struct Def<D4> { enum { N = 3 }; static D4* make(int i, int v) { return i == 0 ? new D4(S1(TT<0>(v))) : i == 1 ? new D4(S1(NT<1>(v))) : new D4(NT<5>(v)); } NOHEAP(D4) };
template <> struct Def<D5> { enum { N = 3 }; static D5* make(int i, int v) { return i == 0 ? new D5(TN<2>(v)) : i == 1 ? new D5(TT<0>(v)) : new D5(NT<1>(v)); } HEAPABLE(D5, TT<0>, TN<2>) };
template <> struct Def<D6> { enum { N = 5 }; static D6* make(int i, int v) { return i == 0 ? new D6(FRM<3>(v)) : i == 1 ? new D6(FRM<6>(v)) : i == 2 ? new D6(NT<1>(v)) : i == 3 ? new D6(TN<2>(v)) : new D6(TT<0>(v)); } HEAPABLE(D6, TT<0>, TN<2>) };
template <> struct Def<D7> { enum { N = 4 }; static D7* make(int i, int v) { return i == 0 ? new D7(S1(TT<0>(v))) : i == 1 ? new D7(S1(NT<1>(v))) : i == 2 ? new D7(TT<0>(v)) : new D7(NT<1>(v)); } NOHEAP(D7) };
template <> struct Def<D9> { enum { N = 4 }; static D9* make(int i, int v) { return i == 0 ? new D9(TT<0>(v)) : i == 1 ? new D9(NT<1>(v)) : i == 2 ? new D9(S1(TT<0>(v))) : new D9(S1(NT<1>(v))); } NOHEAP(D9) };

// which alternative and type the content of s has to become
template <class D, class S> struct Map;
template <class S> struct Map<D1, S> { static Tag want(const S& s) { return look(s); } static int which(Tag t) { return t.id == NT<1>::TID ? 0 : t.id == TT<0>::TID ? 1 : 2; } };
template <class S> struct Map<D2, S> { static Tag want(const S& s) { Tag t = look(s); if (t.id == TT<0>::TID) t.id = FRM<3>::TID; return t; } static int which(Tag t) { return t.id == FRM<3>::TID ? 0 : 1; } };
template <class S> struct Map<D3, S> { static Tag want(const S& s) { return look(s); } static int which(Tag t) { return t.id == TN<2>::TID ? 0 : t.id == TT<0>::TID ? 1 : t.id == -1 ? 2 : 3; } };
template <> struct Map<D1, OPR> { static Tag want(const OPR& s) { Tag t = look(s); t.id = TT<0>::TID; return t; } static int which(Tag) { return 1; } };
template <> struct Map<D3, OPR> { static Tag want(const OPR& s) { Tag t = look(s); t.id = TT<0>::TID; return t; } static int which(Tag) { return 1; } };
template <> struct Map<D8, OPR> { static Tag want(const OPR& s) { Tag t = look(s); t.id = TT<0>::TID; return t; } static int which(Tag) { return 2; } };
template <> struct Map<D4, S1> { static Tag want(const S1& s) { Tag t = look(s); t.id += 100000; return t; } static int which(Tag) { return 0; } };
template <class S> struct Map<D5, S> { static Tag want(const S& s) { return look(s); } static int which(Tag t) { return t.id == TN<2>::TID ? 0 : t.id == TT<0>::TID ? 1 : 2; } };
template <class S> struct Map<D6, S> { static Tag want(const S& s) { return look(s); } static int which(Tag t) { return t.id == NT<1>::TID ? 2 : t.id == TN<2>::TID ? 3 : 4; } };
template <class S> struct Map<D8, S> { static Tag want(const S& s) { return look(s); } static int which(Tag t) { return t.id == TT<7>::TID ? 0 : 2; } };
template <> struct Map<D7, S1> { static Tag want(const S1& s) { Tag t = look(s); t.id += 100000; return t; } static int which(Tag) { return 0; } };
template <> struct Map<D9, S1> { static Tag want(const S1& s) { Tag t = look(s); t.id += 100000; return t; } static int which(Tag) { return 2; } };

enum Op { C_CONST, C_LV, C_RV, A_CONST, A_LV, A_RV, NOPS };
static const char* ops[] = { "construct from const", "construct from lvalue", "construct from rvalue", "assign const", "assign lvalue", "assign rvalue" };

// One execution: returns the number of fault points passed.
template <class S, class D> int exec(Suite& su, int alt, int st, int dalt, int dst, int op, const int* plan, int n, bool allocs, const char* name, bool& possible) {
    World& w = W();
    std::unique_ptr<S> s(Def<S>::make(alt, 1)); std::unique_ptr<D> d;
    possible = !(st && !Def<S>::bomb(*s));
    if (op >= A_CONST) { d.reset(Def<D>::make(dalt, 2)); if (dst && !Def<D>::bomb(*d)) possible = false; }
    if (!possible) return 0;
    Tag s0 = look(*s), want = Map<D, S>::want(*s), d0 = { 0, 0 }; int sw = which_of(*s), dw = -1;
    if (d) { d0 = look(*d); dw = d->which(); }
    bool threw = false; D* made = 0;
    alignas(D) static char room[sizeof(D)];
    const S& cs = *s;
    memset(room, 0x5a, sizeof room);
    ++su.calls;
    begin_case(su.name + "/" + shared()->op, shared()->op, shared()->op, n);
    {
        Arm arm(plan, n); w.alloc_faults = allocs;
        try {
            switch (op) {
            case C_CONST: made = new (room) D(cs); break;
            case C_LV: made = new (room) D(*s); break;
            case C_RV: made = new (room) D(std::move(*s)); break;
            case A_CONST: { D& r = (*d = cs); MC_CHECK(&r == d.get(), "does not return its left operand"); break; }
            case A_LV: { D& r = (*d = *s); MC_CHECK(&r == d.get(), "does not return its left operand"); break; }
            case A_RV: { D& r = (*d = std::move(*s)); MC_CHECK(&r == d.get(), "does not return its left operand"); break; }
            }
        } catch (const Injected& e) { threw = true; MC_CHECKC(VALUE | FAIL, e.point == w.last_point, "%s: another exception escaped", name); }
        catch (const InjectedAlloc& e) { threw = true; MC_CHECKC(VALUE | FAIL, e.point == w.last_point, "%s: another exception escaped", name); }
        w.alloc_faults = false;
    }
    int points = w.points, fired = w.fired;
    long copies = w.copies;
    MC_CHECK(!threw || fired > 0, "%s: failed by itself", name);
    bool rv = op == C_RV || op == A_RV;
    if (!threw) {
        const D& r = op >= A_CONST ? *d : *made;
        if (r.which() < 0 || r.empty()) error(EMPTY, "%s: the target is empty", name);
        Tag got = look(r); const int wantw = Map<D, S>::which(want);
        MC_CHECKC(rv ? VALUE | MOVE : VALUE, got.id == want.id && r.which() == wantw, "%s: the target holds type %d (alternative %d) instead of %d (alternative %d)", name, got.id, r.which(), want.id, wantw);
        MC_CHECKC(rv ? VALUE | MOVE : VALUE, got.val == want.val, "%s: the target has value %d instead of %d", name, got.val, want.val);
        MC_CHECKC(rv ? VALUE | MOVE : VALUE, which_of(*s) == sw && look(*s).id == s0.id, "%s: the source changed its alternative", name);
        if (!rv) MC_CHECK(same(look(*s), s0), "%s: the source was changed", name);
        else { Tag t = look(*s); MC_CHECKC(VALUE | MOVE, t.val == s0.val || t.val == V_MOVED, "%s: the source has an invented value", name);
               // moving converts the content, it does not copy it (types whose move constructor may throw could be copied)
               if (s0.id == TN<2>::TID || s0.id == NN<4>::TID) MC_CHECKC(VALUE | MOVE, copies == 0, "%s: a move copied the content", name); }
        const bool wrapped = (std::is_same<D, D5>::value && wantw == 1) || (std::is_same<D, D6>::value && wantw == 0) || (std::is_same<D, D9>::value && wantw == 2);
        if (!wrapped && (op < A_CONST || dw != wantw)) { Where wh; const char* p = r.apply_visitor(wh); const char* b = reinterpret_cast<const char*>(&r); MC_CHECKC(PLACE, p >= b && p < b + sizeof(D), "%s: the content is not inside the variant", name); }
        su.outcomes.insert(std::string(name) + "=" + std::to_string(got.id));
        if (made) made->~D();
    } else {
        MC_CHECKC(rv ? VALUE | FAIL | MOVE : VALUE | FAIL, which_of(*s) == sw && look(*s).id == s0.id, "%s: the source changed its alternative in a failed operation", name);
        if (!rv) MC_CHECKC(rv ? VALUE | FAIL | MOVE : VALUE | FAIL, same(look(*s), s0), "%s: the source was changed by a failed copy", name);
        if (d) {
            if (d->which() < 0 || d->empty()) error(EMPTY, "%s: the target is empty", name);
            Tag t = look(*d);
            bool ok = (d->which() == dw && same(t, d0));
            if (!ok && dw == Map<D, S>::which(want) && d->which() == dw && t.id % 100000 == want.id % 100000) ok = t.val == want.val || t.val == d0.val || t.val == V_MOVED;   // what the content's own assignment left
            if (!ok && std::is_same<D, D3>::value && t.id == -1) ok = true;           // fallback
            if (!ok && want.id >= 100000 && d0.id >= 100000 && d->which() == dw) ok = same(t, d0) || same(t, want) || t.val == V_MOVED;                      // assignment of the inner variant
            MC_CHECKC(rv ? VALUE | FAIL | MOVE : VALUE | FAIL, ok, "%s: the failed assignment left type %d value %d; before it was type %d value %d", name, t.id, t.val, d0.id, d0.val);
            // the target stays usable
            D cp(*d); MC_CHECKC(rv ? VALUE | FAIL | MOVE : VALUE | FAIL, same(look(cp), look(*d)), "%s: a copy of the target after the failure differs", name);
        }
        su.outcomes.insert(std::string(name) + "!");
    }
    s.reset(); d.reset();
    MC_CHECKC(LIFE, w.nlive == 0, "%s: %d objects leaked", name, w.nlive);
    MC_CHECKC(LIFE, w.nblk == 0, "%s: %d allocations leaked", name, w.nblk);
    return points;
}
template <class S, class D> void pair(Suite& su, const char* n) {
    for (int op = 0; op < NOPS; ++op) for (int alt = 0; alt < Def<S>::N; ++alt) for (int st = 0; st < 2; ++st)
        for (int dalt = 0; dalt < (op >= A_CONST ? int(Def<D>::N) : 1); ++dalt) for (int dst = 0; dst < (op >= A_CONST ? 2 : 1); ++dst) for (int al = 0; al < 2; ++al) {
            std::string id = std::string(n) + "/" + ops[op] + "/" + std::to_string(alt) + (st ? "kept" : "") + "->" + (op >= A_CONST ? std::to_string(dalt) + (dst ? "kept" : "") : "new") + (al ? "/allocation failures" : "");
            su.run(id, [&] {
                bool possible = true;
                int n0 = exec<S, D>(su, alt, st, dalt, dst, op, 0, 0, al, id.c_str(), possible);
                if (!possible) { W().nlive = 0; W().nblk = 0; return; }
                su.state(id);
                for (int i = 0; i < n0 && !W().errcat; ++i) {
                    int plan[2] = { i, 0 };
                    int n1 = exec<S, D>(su, alt, st, dalt, dst, op, plan, 1, al, (id + " fault " + std::to_string(i)).c_str(), possible);
                    for (int j = i + 1; j < n1 && !W().errcat; ++j) { plan[1] = j; exec<S, D>(su, alt, st, dalt, dst, op, plan, 2, al, (id + " faults " + std::to_string(i) + "," + std::to_string(j)).c_str(), possible); }
                }
            });
        }
}
// plain types: conversions between arithmetic and string alternatives, and availability
void plain(Suite& s) {
    typedef boost::variant<int, const char*> A; typedef boost::variant<double, std::string> B; typedef boost::variant<bool, A> C; typedef boost::variant<std::string, A, int> E;
    s.run("plain", [&] {
        A a(5); B b(a); MC_CHECK(b.which() == 0 && boost::get<double>(b) == 5, "int to double"); a = "xyz"; b = a; MC_CHECK(b.which() == 1 && boost::get<std::string>(b) == "xyz", "char* to string");
        C c(a); MC_CHECK(c.which() == 1 && boost::get<const char*>(boost::get<A>(c)) == boost::get<const char*>(a), "whole variant"); c = A(3); MC_CHECK(c.which() == 1 && boost::get<int>(boost::get<A>(c)) == 3, "whole variant");
        E e(a); MC_CHECK(e.which() == 1, "whole variant"); e = A(7); MC_CHECK(e.which() == 1, "whole variant"); B b2((A(9))); MC_CHECK(b2.which() == 0, "rvalue"); s.calls += 7;
        static_assert(!std::is_constructible<boost::variant<int>, boost::variant<std::string, int> >::value, "not every content is convertible");
        static_assert(std::is_constructible<B, A>::value && std::is_constructible<B, const A&>::value && std::is_constructible<B, A&>::value && std::is_assignable<B&, A>::value && std::is_assignable<B&, const A&>::value, "convertible");
        static_assert(!std::is_constructible<boost::variant<std::string>, boost::variant<int*, std::string> >::value, "not every content is convertible");
    });
}
int main(int argc, char** argv) {
    run_matrix("conv2", argc, argv, [](Suite& s) {
#if MC_PART == 0
        pair<S1, D1>(s, "S1>D1"); pair<S1, D2>(s, "S1>D2"); plain(s);
#elif MC_PART == 1
        pair<S3, D3>(s, "S3>D3"); pair<S5, D8>(s, "S5>D8");
#elif MC_PART == 2
        pair<S1, D4>(s, "S1>D4"); pair<S1, D7>(s, "S1>D7"); pair<S2, D5>(s, "S2>D5");
#elif MC_PART == 3
        pair<S1, D5>(s, "S1>D5"); pair<S4, D1>(s, "S4>D1"); pair<S4, D3>(s, "S4>D3");
#elif MC_PART == 4
        pair<S1, D6>(s, "S1>D6"); pair<S1, D9>(s, "S1>D9");
#elif MC_PART == 5
        pair<TT<0>, D1>(s, "TT>D1"); pair<TT<0>, D2>(s, "TT>D2"); pair<OPR, D1>(s, "OPR>D1"); pair<TT<0>, D3>(s, "TT>D3"); pair<OPR, D3>(s, "OPR>D3"); pair<OPR, D8>(s, "OPR>D8"); pair<TT<0>, D6>(s, "TT>D6"); pair<TT<0>, D5>(s, "TT>D5");
#endif
    });
    return 0;
}
