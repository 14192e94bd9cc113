// Explicit-state exploration of operation histories on real boost::variant objects.
//
// A state is a pair of live variants. A transition is one public operation with a fault plan: which of
// the fault points (throwing content operations, allocations) met by that operation throw. Every
// reachable state is expanded with every operation and, for every operation, with no fault, every
// single fault, and every pair of faults. Each transition is checked against the documented
// pre/post relation (the reference model), and every run ends by destroying the variants and checking
// that no object and no allocation is left.
#ifndef MC_HIST_HPP
#define MC_HIST_HPP
#include "core.hpp"
#include <boost/variant.hpp>
#include <boost/blank.hpp>
#ifdef MC_OBS
#include <boost/variant/multivisitors.hpp>
#include <boost/functional/hash.hpp>
#endif
#include <boost/mpl/list.hpp>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <type_traits>
#include <typeinfo>
#include <deque>
#include <tuple>

namespace mc {

// ---- content traits ---------------------------------------------------------------------------
template <class T> struct is_rw : std::false_type { typedef T logical; };
template <class T> struct is_rw<boost::recursive_wrapper<T> > : std::true_type { typedef T logical; };

template <class T, class = void> struct TI {        // instrumented
    static int value(const T& t) { return t.val; }
    static void set(T& t, int v) { t.val = v; }
    static bool live(const T* t) { return is_live(t, T::TID); }
    static int objects() { return 1; }
    static std::string name() { return T::name() + std::to_string(T::TID % 64); }
    static T* construct(void* p, int v) { return new (p) T(v); }
    static const int deflt = V_DEFAULT;
    static int sel(int v) { return v; }
};
template <int ID, class I> struct TI<HOLD<ID, I>, void> {
    typedef HOLD<ID, I> T;
    // 50 + value: the record's member was moved out of it
    static int value(const T& t) { if (t.inner.val == V_MOVED && t.val != V_MOVED) return 50 + t.val; if (t.inner.val != t.val) error(VALUE, "record and its member disagree: %d/%d", t.val, t.inner.val); return t.val; }
    static void set(T& t, int v) { t.val = v; t.inner.val = v; }
    static bool live(const T* t) { return is_live(static_cast<const Core*>(t), T::TID) && is_live(&t->inner, I::TID); }
    static int objects() { return 2; }
    static std::string name() { return T::name() + std::to_string(T::TID % 64); }
    static T* construct(void* p, int v) { return new (p) T(v); }
    static const int deflt = V_DEFAULT;
    static int sel(int v) { return v; }
};
template <int ID> struct TI<TD<ID>, void> {
    typedef TD<ID> T;
    static int value(const T& t) { return t.val; }
    static void set(T& t, int v) { t.val = v; }
    static bool live(const T* t) { return t->self == t; }
    static int objects() { return 0; }
    static std::string name() { return T::name() + std::to_string(T::TID % 64); }
    static T* construct(void* p, int v) { return new (p) T(v); }
    static const int deflt = V_DEFAULT;
    static int sel(int v) { return v; }
};
template <int ID> struct TI<EM<ID>, void> {
    typedef EM<ID> T;
    static int value(const T&) { return 1; }
    static void set(T&, int) {}
    static bool live(const T* t) { return is_live(t, T::TID); }
    static int objects() { return 1; }
    static std::string name() { return T::name() + std::to_string(T::TID % 64); }
    static T* construct(void* p, int v) { return new (p) T(v); }
    static const int deflt = V_DEFAULT;
    static int sel(int) { return 1; }
};
template <int ID> struct TI<TR<ID>, void> {
    typedef TR<ID> T;
    static int value(const T& t) { return t.val; }
    static void set(T& t, int v) { t.val = v; }
    static bool live(const T*) { return true; }
    static int objects() { return 0; }
    static std::string name() { return T::name() + std::to_string(T::TID % 64); }
    static T* construct(void* p, int v) { T* t = new (p) T(); t->val = v; return t; }
    static const int deflt = 0;
    static int sel(int v) { return v; }
};
template <> struct TI<int, void> {
    static int value(const int& t) { return t; }
    static void set(int& t, int v) { t = v; }
    static bool live(const int*) { return true; }
    static int objects() { return 0; }
    static std::string name() { return "int"; }
    static int* construct(void* p, int v) { return new (p) int(v); }
    static const int deflt = 0;
    static int sel(int v) { return v; }
};
template <> struct TI<boost::blank, void> {
    static int value(const boost::blank&) { return 0; }
    static void set(boost::blank&, int) {}
    static bool live(const boost::blank*) { return true; }
    static int objects() { return 0; }
    static std::string name() { return "blank"; }
    static boost::blank* construct(void* p, int) { return new (p) boost::blank(); }
    static const int deflt = 0;
    static int sel(int) { return 0; }
};

template <class T> struct Box {   // an argument object, built outside the operation under test
    typename std::aligned_storage<sizeof(T), alignof(T)>::type buf;
    T* p;
    explicit Box(int v) { p = TI<T>::construct(&buf, v); }
    ~Box() { p->~T(); }
private: Box(const Box&); Box& operator=(const Box&);
};

template <class T, class... Ts> struct index_of;
template <class T, class... R> struct index_of<T, T, R...> : std::integral_constant<int, 0> {};
template <class T, class U, class... R> struct index_of<T, U, R...> : std::integral_constant<int, 1 + index_of<T, R...>::value> {};
template <class T> struct index_of<T> : std::integral_constant<int, 0> {};

template <bool...> struct bools;
template <bool... B> struct all_of : std::is_same<bools<true, B...>, bools<B..., true> > {};

struct Slot { int which, val; bool heap; };
inline bool operator==(const Slot& a, const Slot& b) { return a.which == b.which && a.val == b.val; }

// ---- per-type facts the model needs -------------------------------------------------------------
struct TypeFacts {
    std::string name;
    bool rw, nothrow_copy, nothrow_move, nothrow_move_assign, nothrow_default, blank, copyable, own_swap, safe_assign;
    int deflt, sel1, sel2;
};
template <class T> struct has_own_swap { enum { value = 0 }; };
template <int ID> struct has_own_swap<SW<ID> > { enum { value = 1 }; };
template <class T> struct has_safe_assign { enum { value = 0 }; };
template <int ID> struct has_safe_assign<AS<ID> > { enum { value = 1 }; };
template <int ID> struct has_safe_assign<TA<ID> > { enum { value = 1 }; };
template <class B> TypeFacts facts_of() {
    typedef typename is_rw<B>::logical T;
    TypeFacts f;
    f.name = (is_rw<B>::value ? "rw:" : "") + TI<T>::name();
    f.rw = is_rw<B>::value;
    f.nothrow_copy = !f.rw && std::is_nothrow_copy_constructible<T>::value;
    f.nothrow_move = !f.rw && std::is_nothrow_move_constructible<T>::value;
    f.nothrow_move_assign = !f.rw && std::is_nothrow_move_assignable<T>::value;
    f.nothrow_default = !f.rw && std::is_nothrow_default_constructible<T>::value;
    f.blank = std::is_same<T, boost::blank>::value;
    f.copyable = std::is_copy_constructible<T>::value;
    f.own_swap = has_own_swap<T>::value; f.safe_assign = has_safe_assign<T>::value;
    f.deflt = TI<T>::deflt; f.sel1 = TI<T>::sel(1); f.sel2 = TI<T>::sel(2);
    return f;
}

// ---- operations -----------------------------------------------------------------------------------
enum Kind { K_COPY, K_MOVE, K_SWAP, K_SET, K_NEWCOPY, K_NEWMOVE, K_NEWFROM, K_NEWDEF, K_MUT, K_ALIAS, K_COPYLV, K_TEMP };
enum SrcCat { S_CONST, S_LV, S_RV, S_CRV };

template <class V> struct Env {
    V* s[3];
    V* fresh;         // result of a constructing operation
    bool ret_self;    // assignment returned *this
    int src_val;      // value left in an argument object
    bool src_live;
};

template <class V> struct Op {
    std::string name;
    Kind kind; int x, y;       // target, source slot
    int which, val; SrcCat cat;
    std::function<void(Env<V>&, const std::vector<int>&)> run;  // arms itself around the library call
};

template <class V> void* raw_block() {
    std::size_t a = alignof(V) < sizeof(void*) ? sizeof(void*) : alignof(V);
    void* p = 0;
    if (posix_memalign(&p, a, sizeof(V) + 8)) abort();      // ASan misses a misaligned write that only begins in the object
    memset(p, 0xCD, sizeof(V) + 8);
    return p;
}
template <class V> bool intact_behind(const V* v) { const unsigned char* p = reinterpret_cast<const unsigned char*>(v) + sizeof(V); for (int i = 0; i < 8; ++i) if (p[i] != 0xCD) return false; return true; }

struct Opt { bool alloc_faults; int max_faults; int nodedup_depth; long max_runs; int nslots; bool both_vals; };

template <class V, class... Bs> struct Hist {
    typedef Hist Self;
    static const int N = sizeof...(Bs);
    template <int I> struct At { typedef typename std::tuple_element<I, std::tuple<Bs...> >::type B; typedef typename is_rw<B>::logical T; };
    static const bool copyable = all_of<std::is_copy_constructible<typename is_rw<Bs>::logical>::value...>::value;

    std::string cfg;
    Opt opt;
    std::vector<TypeFacts> F;
    bool has_fallback, has_blank;
    std::vector<Op<V> > ops;
    std::set<std::string> skip;
    long runs, op_execs, states, transitions, fault_transitions, failed_ops, heap_states;
    std::set<std::string> outcomes;
    int found;
    bool verbose;
    std::string sample;
    std::map<std::string, int> seen_viol;

    struct Step { int op; std::vector<int> plan; };
    typedef std::vector<Step> Trace;

    // ---- observation --------------------------------------------------------------------------
    struct Seen { int calls, idx, val; const void* p; bool live; std::size_t align, size; };
    struct Look : boost::static_visitor<> {
        Seen* r;
        template <class T> void operator()(const T& t) const {
            ++r->calls; r->idx = index_of<T, typename is_rw<Bs>::logical...>::value; r->p = std::addressof(t);
            r->live = TI<T>::live(std::addressof(t));
            r->val = r->live ? TI<T>::value(t) : -99; r->align = alignof(T); r->size = sizeof(T);
        }
    };
    struct LookMut : boost::static_visitor<const void*> {
        int* calls; int* idx;
        template <class T> const void* operator()(T& t) const { ++*calls; *idx = index_of<typename std::remove_const<T>::type, typename is_rw<Bs>::logical...>::value; return std::addressof(t); }
    };
    template <class T> static void check_get(const V& cv, V& mv, const Slot& s, const void* p, int i) {
        const T* g = boost::get<T>(&cv);
        T* m = boost::get<T>(&mv);
        if ((g != 0) != (i == s.which) || g != m || (g && (const void*)g != p))
            error(OBS | EMPTY, "get<%d> disagrees with which()==%d and visitation", i, s.which);
    }
    template <int I> typename std::enable_if<(I == N), void>::type check_gets(const V&, V&, const Slot&, const void*) {}
    template <int I> typename std::enable_if<(I < N), void>::type check_gets(const V& c, V& m, const Slot& s, const void* p) {
        check_get<typename At<I>::T>(c, m, s, p, I);
        check_gets<I + 1>(c, m, s, p);
    }
    template <int I> static typename std::enable_if<(I == N), bool>::type check_type(const V&, int) { return false; }
    template <int I> static typename std::enable_if<(I < N), bool>::type check_type(const V& c, int w) {
#ifndef BOOST_NO_RTTI
        if (w == I) return c.type() == boost::typeindex::type_id<typename At<I>::T>().type_info();
#else
        if (w == I) return true;
#endif
        return check_type<I + 1>(c, w);
    }

    // Reads one variant through every public view and cross-checks them.
    Slot observe(V& v) {
        Slot s; s.which = -1; s.val = -99; s.heap = false;
        unsigned char before[sizeof(V)];
        memcpy(before, (void*)&v, sizeof(V));
        World& w = W();
        const V& c = v;
        long live0 = w.nlive;
        Arm arm(0, 0);
        int which = c.which();
        if (which < 0 || which >= N) { error(EMPTY, "which() is %d, outside [0,%d)", which, N); return s; }
        if (c.empty()) error(EMPTY, "empty() is true");
        if (!intact_behind(&v)) error(LIFE | PLACE, "memory behind the variant was overwritten");
        Seen r; memset(&r, 0, sizeof r);
        Look look; look.r = &r;
        boost::apply_visitor(look, c);
        if (r.calls != 1) { error(EMPTY, "visitation made %d calls", r.calls); return s; }
        if (r.idx != which) { error(EMPTY, "which() is %d but the visitor was given alternative %d", which, r.idx); return s; }
        if (!r.live) { error(EMPTY | LIFE, "which() is %d (%s) but there is no live object of that type in the variant, so its destruction destroys none or another", which, F[which].name.c_str()); return s; }
        int calls = 0, idx = -1;
        LookMut lm; lm.calls = &calls; lm.idx = &idx;
        const void* q = boost::apply_visitor(lm, v);
        if (calls != 1 || q != r.p || idx != which) error(EMPTY, "mutable visitation saw another object than const visitation");
        s.which = which; s.val = r.val;
        check_gets<0>(c, v, s, r.p);
        if (!check_type<0>(c, which)) error(EMPTY, "type() does not name alternative %d", which);
        if (!(c == c) || c != c || c < c || c > c || !(c <= c) || !(c >= c)) error(OBS, "comparison of a variant with itself");
        const char* b = (const char*)&v;
        const char* p = (const char*)r.p;
        s.heap = !(p >= b && p + r.size <= b + sizeof(V));
        if (reinterpret_cast<std::uintptr_t>(p) % r.align) error(PLACE, "content of alternative %d is not aligned to %d", which, int(r.align));
        if (!s.heap && p < b + sizeof(V) && p + r.size > b + sizeof(V)) error(PLACE, "content reaches outside the variant");
        if (s.heap && !F[which].rw) {
            bool owned = false;
            for (int i = 0; i < w.nblk; ++i) if (p >= (char*)w.blk[i].p && p + r.size <= (char*)w.blk[i].p + w.blk[i].n) owned = true;
            if (!owned) error(LIFE, "content is neither in the variant nor in memory allocated for it");
        }
        if (w.copies || w.moves || w.allocs || w.points) error(OBS, "observing made %ld copies, %ld moves, %ld allocations", w.copies, w.moves, w.allocs);
        if (w.nlive != live0) error(OBS, "observing created or destroyed objects");
        if (memcmp(before, (void*)&v, sizeof(V))) error(OBS, "observing changed the variant");
        return s;
    }

#ifdef MC_OBS
    // Every observer on the pair of variants; nothing may be copied, moved, allocated or changed.
    struct NullBuf : std::streambuf { char room[64]; long n; NullBuf() : n(0) {} int overflow(int c) { ++n; return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize k) { n += long(k); return k; } };
    struct Pairs : boost::static_visitor<int> { int* calls; template <class A, class B> int operator()(const A&, const B&) const { return ++*calls; } };
    struct Triples : boost::static_visitor<int> { int* calls; template <class A, class B, class C> int operator()(const A&, const B&, const C&) const { return ++*calls; } };
    struct One : boost::static_visitor<int> { int* calls; template <class A> int operator()(A&) { return ++*calls; } };
    struct OneRef : boost::static_visitor<const void*> { template <class A> const void* operator()(const A& a) const { return std::addressof(a); } };
    static const bool hashable = !(index_of<boost::blank, typename is_rw<Bs>::logical...>::value < N);
    static std::size_t do_hash(const V& v, std::true_type) { return hash_value(v) + boost::hash<V>()(v) + std::hash<V>()(v); }
    static std::size_t do_hash(const V&, std::false_type) { return 0; }
    template <int I> static typename std::enable_if<(I == N), int>::type ref_gets(V&) { return 0; }
    template <int I> static typename std::enable_if<(I < N), int>::type ref_gets(V& v) {
        typedef typename At<I>::T T; const V& c = v; int n = 0;
        n += boost::strict_get<T>(&v) != 0; n += boost::relaxed_get<T>(&c) != 0;
#ifndef MC_NO_EXC
        try { n += std::addressof(boost::get<T>(v)) != 0; } catch (const boost::bad_get&) {}
        try { n += std::addressof(boost::get<T>(c)) != 0; } catch (const boost::bad_get&) {}
        try { T&& r = boost::get<T>(std::move(v)); n += std::addressof(r) != 0; } catch (const boost::bad_get&) {}
#endif
        return n + ref_gets<I + 1>(v);
    }
    template <class Fn> void quiet(V& a, V& b, const char* what, Fn fn) {
        World& w = W();
        if (w.errcat) return;
        static unsigned char ba[sizeof(V)], bb[sizeof(V)];
        memcpy(ba, (void*)&a, sizeof(V)); memcpy(bb, (void*)&b, sizeof(V));
        Slot sa = observe_raw(a), sb = observe_raw(b);
        long live0 = w.nlive, blk0 = w.nblk; std::size_t r1, r2;
        { Arm arm(0, 0); r1 = fn(); r2 = fn(); ++observations; observations += 1; }
        if (w.copies || w.moves || w.allocs || w.points) error(OBS, "%s made %ld copies, %ld moves, %ld allocations", what, w.copies, w.moves, w.allocs);
        if (w.nlive != live0 || w.nblk != blk0) error(OBS, "%s created or destroyed objects", what);
        if (memcmp(ba, (void*)&a, sizeof(V)) || memcmp(bb, (void*)&b, sizeof(V))) error(OBS, "%s changed a variant", what);
        Slot ta = observe_raw(a), tb = observe_raw(b);
        if (!(sa == ta) || !(sb == tb) || sa.heap != ta.heap || sb.heap != tb.heap) error(OBS, "%s changed the content from %s and %s to %s and %s", what, show(sa).c_str(), show(sb).c_str(), show(ta).c_str(), show(tb).c_str());
        if (r1 != r2) error(OBS, "%s gave another result the second time", what);
    }
    void observe_more(V& a, V& b) {
        const V& ca = a; const V& cb = b;
        static NullBuf nb; static std::ostream os(&nb);
        int calls = 0;
        quiet(a, b, "which, type, empty", [&] { return std::size_t(ca.which() + cb.which() * 16 + ca.empty() * 512) 
#ifndef BOOST_NO_RTTI
            + (ca.type() == cb.type()) * 1024
#endif
            ; });
        quiet(a, b, "get", [&] { return std::size_t(ref_gets<0>(a)); });
        quiet(a, b, "comparison", [&] { return std::size_t((ca == cb) + (ca != cb) * 2 + (ca < cb) * 4 + (ca > cb) * 8 + (ca <= cb) * 16 + (ca >= cb) * 32); });
        quiet(a, b, "comparison with itself", [&] { return std::size_t((ca == ca) + (ca < ca) * 4); });
        quiet(a, b, "hashing", [&] { return do_hash(ca, std::integral_constant<bool, hashable>()) * 3 + do_hash(cb, std::integral_constant<bool, hashable>()); });
        quiet(a, b, "streaming", [&] { long n0 = nb.n; os << ca << cb; return std::size_t(nb.n - n0); });
        OneRef ref; One one; one.calls = &calls;
        quiet(a, b, "visitation of a constant", [&] { return std::size_t(boost::apply_visitor(ref, ca)) + std::size_t(ca.apply_visitor(ref)); });
        quiet(a, b, "visitation", [&] { int c0 = calls; boost::apply_visitor(one, a); a.apply_visitor(one); boost::apply_visitor(one, b); return std::size_t(calls - c0); });
        quiet(a, b, "visitation of an rvalue", [&] { return std::size_t(boost::apply_visitor(ref, std::move(a))); });
        quiet(a, b, "delayed visitation", [&] { int c0 = calls; boost::apply_visitor(one)(a); return std::size_t(calls - c0); });
        Pairs pr; pr.calls = &calls; Triples tr; tr.calls = &calls;
        quiet(a, b, "visitation of two", [&] { int c0 = calls; boost::apply_visitor(pr, a, b); boost::apply_visitor(pr, ca, cb); boost::apply_visitor(pr, ca, ca); return std::size_t(calls - c0); });
        quiet(a, b, "visitation of two rvalues", [&] { int c0 = calls; boost::apply_visitor(pr, std::move(a), std::move(b)); return std::size_t(calls - c0); });
        quiet(a, b, "visitation of three", [&] { int c0 = calls; boost::apply_visitor(tr, ca, cb, ca); boost::apply_visitor(tr, a, b, a); return std::size_t(calls - c0); });
    }
    long observations; std::set<std::string> observed;
#else
    static const long observations = 0;
#endif

    // ---- operation construction -----------------------------------------------------------------
    void add(const std::string& name, Kind k, int x, int y, int which, int val, SrcCat cat, std::function<void(Env<V>&, const std::vector<int>&)> f) {
        Op<V> o; o.name = name; o.kind = k; o.x = x; o.y = y; o.which = which; o.val = val; o.cat = cat; o.run = f; ops.push_back(o);
    }
#define MC_ARM(P) Arm arm((P).empty() ? 0 : &(P)[0], int((P).size()))
    typedef const std::vector<int>& P;
    void add_copy_ops(std::true_type) {
        for (int x = 0; x < opt.nslots; ++x) for (int y = 0; y < opt.nslots; ++y) {
            std::string xy = std::string(1, char('a' + x)) + "," + char('a' + y);
            add("copy-assign(" + xy + ")", K_COPY, x, y, -1, 0, S_CONST, [x, y](Env<V>& e, P p) { MC_ARM(p); V& r = (*e.s[x] = const_cast<const V&>(*e.s[y])); e.ret_self = &r == e.s[x]; });
            add("copy-assign-lvalue(" + xy + ")", K_COPYLV, x, y, -1, 0, S_LV, [x, y](Env<V>& e, P p) { MC_ARM(p); V& r = (*e.s[x] = *e.s[y]); e.ret_self = &r == e.s[x]; });
            add("copy-construct(" + xy + ")", K_NEWCOPY, x, y, -1, 0, S_CONST, [y](Env<V>& e, P p) { void* b = raw_block<V>(); Guard g(b); MC_ARM(p); e.fresh = new (b) V(const_cast<const V&>(*e.s[y])); g.release(); });
            add("copy-construct-lvalue(" + xy + ")", K_NEWCOPY, x, y, -1, 0, S_LV, [y](Env<V>& e, P p) { void* b = raw_block<V>(); Guard g(b); MC_ARM(p); e.fresh = new (b) V(*e.s[y]); g.release(); });
        }
    }
    void add_copy_ops(std::false_type) {}
    struct Guard { void* b; explicit Guard(void* q) : b(q) {} ~Guard() { if (b) free(b); } void release() { b = 0; } };

    template <int I> void add_set_lv(std::true_type) {
        typedef typename At<I>::T T;
        for (int x = 0; x < opt.nslots; ++x) for (int v = 1; v <= 2; ++v) {
            if (!opt.both_vals && v != x % 2 + 1) continue;
            int val = v == 1 ? F[I].sel1 : F[I].sel2;
            std::string a = std::string("(") + char('a' + x) + "," + F[I].name + "(" + std::to_string(v) + "))";
            add("assign-const" + a, K_SET, x, -1, I, val, S_CONST, [x, v](Env<V>& e, P p) { Box<T> b(v); { struct Out { Env<V>& e; Box<T>& b; ~Out() { e.src_live = TI<T>::live(b.p); e.src_val = e.src_live ? TI<T>::value(*b.p) : -99; } } o = { e, b }; MC_ARM(p); V& r = (*e.s[x] = const_cast<const T&>(*b.p)); e.ret_self = &r == e.s[x]; } });
            add("assign-lvalue" + a, K_SET, x, -1, I, val, S_LV, [x, v](Env<V>& e, P p) { Box<T> b(v); { struct Out { Env<V>& e; Box<T>& b; ~Out() { e.src_live = TI<T>::live(b.p); e.src_val = e.src_live ? TI<T>::value(*b.p) : -99; } } o = { e, b }; MC_ARM(p); V& r = (*e.s[x] = *b.p); e.ret_self = &r == e.s[x]; } });
            add("construct-const" + a, K_NEWFROM, x, -1, I, val, S_CONST, [v](Env<V>& e, P p) { Box<T> b(v); void* m = raw_block<V>(); Guard g(m); { struct Out { Env<V>& e; Box<T>& b; ~Out() { e.src_live = TI<T>::live(b.p); e.src_val = e.src_live ? TI<T>::value(*b.p) : -99; } } o = { e, b }; MC_ARM(p); e.fresh = new (m) V(const_cast<const T&>(*b.p)); g.release(); } });
            add("construct-lvalue" + a, K_NEWFROM, x, -1, I, val, S_LV, [v](Env<V>& e, P p) { Box<T> b(v); void* m = raw_block<V>(); Guard g(m); { struct Out { Env<V>& e; Box<T>& b; ~Out() { e.src_live = TI<T>::live(b.p); e.src_val = e.src_live ? TI<T>::value(*b.p) : -99; } } o = { e, b }; MC_ARM(p); e.fresh = new (m) V(*b.p); g.release(); } });
            add("assign-const-rvalue" + a, K_SET, x, -1, I, val, S_CRV, [x, v](Env<V>& e, P p) { Box<T> b(v); { struct Out { Env<V>& e; Box<T>& b; ~Out() { e.src_live = TI<T>::live(b.p); e.src_val = e.src_live ? TI<T>::value(*b.p) : -99; } } o = { e, b }; MC_ARM(p); V& r = (*e.s[x] = static_cast<const T&&>(*b.p)); e.ret_self = &r == e.s[x]; } });
        }
    }
    template <int I> void add_set_lv(std::false_type) {}
    template <int I> void add_set() {
        typedef typename At<I>::T T;
        add_set_lv<I>(std::integral_constant<bool, copyable && std::is_copy_constructible<T>::value>());
        for (int x = 0; x < opt.nslots; ++x) for (int v = 1; v <= 2; ++v) {
            if (!opt.both_vals && v != x % 2 + 1) continue;
            int val = v == 1 ? F[I].sel1 : F[I].sel2;
            std::string a = std::string("(") + char('a' + x) + "," + F[I].name + "(" + std::to_string(v) + "))";
            add("assign-rvalue" + a, K_SET, x, -1, I, val, S_RV, [x, v](Env<V>& e, P p) { Box<T> b(v); { struct Out { Env<V>& e; Box<T>& b; ~Out() { e.src_live = TI<T>::live(b.p); } } o = { e, b }; MC_ARM(p); V& r = (*e.s[x] = std::move(*b.p)); e.ret_self = &r == e.s[x]; } });
            add("construct-rvalue" + a, K_NEWFROM, x, -1, I, val, S_RV, [v](Env<V>& e, P p) { Box<T> b(v); void* m = raw_block<V>(); Guard g(m); { struct Out { Env<V>& e; Box<T>& b; ~Out() { e.src_live = TI<T>::live(b.p); } } o = { e, b }; MC_ARM(p); e.fresh = new (m) V(std::move(*b.p)); g.release(); } });
        }
        for (int x = 0; x < opt.nslots; ++x) {   // write through a reference obtained from the variant
            add(std::string("write-through(") + char('a' + x) + "," + F[I].name + ")", K_MUT, x, -1, I, I == 0 ? F[I].sel1 : F[I].sel2, S_CONST,
                [x](Env<V>& e, P) { T* t = boost::get<T>(e.s[x]); if (t) TI<T>::set(*t, I == 0 ? 1 : 2); });
        }
    }
    template <int I> typename std::enable_if<(I == N), void>::type add_sets() {}
    template <int I> typename std::enable_if<(I < N), void>::type add_sets() { add_set<I>(); add_sets<I + 1>(); }

    void add_default(std::true_type) {
        for (int x = 0; x < opt.nslots; ++x)
            add(std::string("default-construct(") + char('a' + x) + ")", K_NEWDEF, x, -1, 0, F[0].deflt, S_CONST, [](Env<V>& e, P p) { void* m = raw_block<V>(); Guard g(m); MC_ARM(p); e.fresh = new (m) V(); g.release(); });
    }
    void add_default(std::false_type) {}

    // v = member of the record v holds
    template <class H> void add_alias_one(std::false_type) {}
    template <class H> void add_alias_one(std::true_type) {
        typedef typename HoldInner<H>::type I;
        const int hi = index_of<H, typename is_rw<Bs>::logical...>::value, ii = index_of<I, typename is_rw<Bs>::logical...>::value;
        for (int x = 0; x < opt.nslots; ++x) {
            add(std::string("assign-own-member(") + char('a' + x) + ")", K_ALIAS, x, hi, ii, 0, S_CONST, [x](Env<V>& e, P p) {
                H* h = boost::get<H>(e.s[x]); if (!h) return; MC_ARM(p); V& r = (*e.s[x] = const_cast<const I&>(h->inner)); e.ret_self = &r == e.s[x]; });
            add(std::string("assign-own-member-rvalue(") + char('a' + x) + ")", K_ALIAS, x, hi, ii, 0, S_RV, [x](Env<V>& e, P p) {
                H* h = boost::get<H>(e.s[x]); if (!h) return; MC_ARM(p); V& r = (*e.s[x] = std::move(h->inner)); e.ret_self = &r == e.s[x]; });
        }
    }
    template <class H> struct HoldInner : std::false_type { typedef void type; };
    template <int ID, class I> struct HoldInner<HOLD<ID, I> > : std::true_type { typedef I type; };
    template <class H> void add_alias() {
        add_alias_one<H>(std::integral_constant<bool, HoldInner<H>::value && (index_of<typename HoldInner<H>::type, typename is_rw<Bs>::logical...>::value < N)>());
        // self assignment of the content itself
        for (int x = 0; x < opt.nslots; ++x) add_self<H>(x, std::is_copy_constructible<H>());
    }
    template <class T> void add_self(int x, std::true_type) {
        const int i = index_of<T, typename is_rw<Bs>::logical...>::value;
        if (!copyable) return;
        add_self2<T>(x, i, std::integral_constant<bool, copyable>());
    }
    template <class T> void add_self(int, std::false_type) {}
    template <class T> void add_self2(int, int, std::false_type) {}
    template <class T> void add_self2(int x, int i, std::true_type) {
        add(std::string("assign-own-content(") + char('a' + x) + "," + F[i].name + ")", K_ALIAS, x, i, i, 1, S_CONST, [x](Env<V>& e, P p) {
            T* t = boost::get<T>(e.s[x]); if (!t) return; MC_ARM(p); V& r = (*e.s[x] = const_cast<const T&>(*t)); e.ret_self = &r == e.s[x]; });
        for (int y = 0; y < opt.nslots; ++y) if (y != x)
            add(std::string("assign-other-content(") + char('a' + x) + "," + char('a' + y) + "," + F[i].name + ")", K_TEMP, x, y, i, 0, S_CONST, [x, y](Env<V>& e, P p) {
                T* t = boost::get<T>(e.s[y]); if (!t) return; MC_ARM(p); V& r = (*e.s[x] = const_cast<const T&>(*t)); e.ret_self = &r == e.s[x]; });
    }

    void build() {
        TypeFacts ff[] = { facts_of<Bs>()... };
        F.assign(ff, ff + N);
        has_fallback = has_blank = false;
        for (int i = 0; i < N; ++i) { has_fallback |= F[i].nothrow_default; has_blank |= F[i].blank; }
        add_sets<0>();
        add_copy_ops(std::integral_constant<bool, copyable>());
        for (int x = 0; x < opt.nslots; ++x) for (int y = 0; y < opt.nslots; ++y) {
            std::string xy = std::string(1, char('a' + x)) + "," + char('a' + y);
            add("move-assign(" + xy + ")", K_MOVE, x, y, -1, 0, S_RV, [x, y](Env<V>& e, P p) { MC_ARM(p); V& r = (*e.s[x] = std::move(*e.s[y])); e.ret_self = &r == e.s[x]; });
            add("move-construct(" + xy + ")", K_NEWMOVE, x, y, -1, 0, S_RV, [y](Env<V>& e, P p) { void* b = raw_block<V>(); Guard g(b); MC_ARM(p); e.fresh = new (b) V(std::move(*e.s[y])); g.release(); });
            add("member-swap(" + xy + ")", K_SWAP, x, y, -1, 0, S_LV, [x, y](Env<V>& e, P p) { MC_ARM(p); e.s[x]->swap(*e.s[y]); });
            add("free-swap(" + xy + ")", K_SWAP, x, y, -1, 0, S_LV, [x, y](Env<V>& e, P p) { MC_ARM(p); swap(*e.s[x], *e.s[y]); });
        }
        add_default(std::integral_constant<bool, std::is_default_constructible<typename At<0>::T>::value>());
        int dummy[] = { (add_alias<typename is_rw<Bs>::logical>(), 0)... };
        (void)dummy;
    }

    // ---- the reference model: is the observed outcome allowed? ----------------------------------
    std::string show(const Slot& s) { return s.which < 0 ? "?" : F[s.which].name + "(" + (s.val == V_MOVED ? "moved-from" : std::to_string(s.val)) + ")" + (s.heap ? "@heap" : ""); }

    bool fallback_state(const Slot& s) {
        if (s.which < 0 || !F[s.which].nothrow_default) return false;
        if (has_blank && !F[s.which].blank) return false;
        return s.val == F[s.which].deflt;
    }
    // after a failed assignment: the previous value; the new value only where content assignment was used
    void check_failed(const Slot& pre, const Slot& post, bool same_alt, const Slot& nw, bool threw_fallback) {
        if (post == pre) return;
        if (same_alt && post == nw) return;
        if (has_fallback && threw_fallback && fallback_state(post)) return;
        error(FAIL, "failed assignment to %s left %s; allowed: the previous value%s%s", show(pre).c_str(), show(post).c_str(), same_alt ? ", the new value" : "", has_fallback ? ", or a default value of a nothrow default-constructible alternative" : "");
    }

    struct Outcome { bool threw; bool injected; };
    // the alternative stays: the content is assigned to, nothing is built anew
    void check_direct(const Slot& pre, int which, const Outcome& out) {
        if (pre.which == which && F[which].safe_assign && out.threw) error(FAIL, "assigning %s to %s failed although assigning the content cannot", F[which].name.c_str(), show(pre).c_str());
    }

    void check_model(const Op<V>& o, const std::vector<Slot>& pre, const std::vector<Slot>& post, const Env<V>& e, const Outcome& out, int fired, long copies, long allocs) {
        const Slot& px = pre[o.x];
        const Slot& qx = post[o.x];
        if (out.threw && !fired) { error(VALUE, "an operation failed although nothing it used failed"); return; }
        if (out.threw && !out.injected) { error(FAIL, "the exception that left the operation is not the one that was thrown into it"); return; }
        // every slot that is not an operand is unchanged
        for (int i = 0; i < int(pre.size()); ++i) if (i != o.x && i != o.y && !(pre[i] == post[i])) error(VALUE, "an unrelated variant changed from %s to %s", show(pre[i]).c_str(), show(post[i]).c_str());
        bool lvalue_src = o.cat != S_RV;
        if (!out.threw && (o.kind == K_COPY || o.kind == K_COPYLV || o.kind == K_MOVE || o.kind == K_SET || o.kind == K_TEMP) && !e.ret_self) error(VALUE, "assignment did not return its left operand");
        switch (o.kind) {
        case K_COPY: case K_COPYLV: {
            const Slot& py = pre[o.y];
            if (o.x != o.y && !(post[o.y] == py)) error(VALUE, "copying changed the source from %s to %s", show(py).c_str(), show(post[o.y]).c_str());
            if (px.heap == py.heap && (has_fallback || !F[px.which].rw)) check_direct(px, py.which, out);
            if (!out.threw) { if (!(qx == py)) error(VALUE, "copy assignment of %s gave %s", show(py).c_str(), show(qx).c_str()); }
            else check_failed(px, qx, px.which == py.which, py, px.which != py.which);
            break; }
        case K_MOVE: {
            const Slot& py = pre[o.y];
            if (o.x == o.y) { if (qx.which != px.which) error(MOVE, "self move changed the alternative"); break; }
            if (px.heap == py.heap && (has_fallback || !F[px.which].rw)) check_direct(px, py.which, out);
            if (post[o.y].which != py.which) error(MOVE, "moving from %s left %s", show(py).c_str(), show(post[o.y]).c_str());
            if (!out.threw) {
                if (!(qx == py)) error(VALUE | MOVE, "move assignment of %s gave %s", show(py).c_str(), show(qx).c_str());
                if (F[py.which].nothrow_move && copies) error(MOVE, "move assignment copied content that can be moved");
            } else check_failed(px, qx, px.which == py.which, py, px.which != py.which);
            break; }
        case K_SWAP: {
            const Slot& py = pre[o.y];
            const Slot& qy = post[o.y];
            if (px.which == py.which && F[px.which].own_swap && (out.threw || copies)) error(SWAP, "swap of %s and %s %s although the swap of the contents does not", show(px).c_str(), show(py).c_str(), out.threw ? "failed" : "copied content");
            if (!out.threw) {
                if (!(qx == py) || !(qy == px)) error(SWAP, "swap of %s and %s gave %s and %s", show(px).c_str(), show(py).c_str(), show(qx).c_str(), show(qy).c_str());
                bool nm = F[px.which].nothrow_move && F[py.which].nothrow_move;
                if (nm && copies) error(SWAP, "swap copied content that can be moved");
            } else {
                const Slot* q[2] = { &qx, &qy };
                for (int i = 0; i < 2; ++i) {
                    const Slot& s = *q[i];
                    bool ok = fallback_state(s);
                    if (s.which == px.which && (s.val == px.val || s.val == V_MOVED)) ok = true;
                    if (s.which == py.which && (s.val == py.val || s.val == V_MOVED)) ok = true;
                    if (!ok) error(SWAP, "failed swap of %s and %s invented %s", show(px).c_str(), show(py).c_str(), show(s).c_str());
                }
            }
            break; }
        case K_SET: {
            if (!e.src_live) error(LIFE, "the argument object was destroyed");
            if (lvalue_src && e.src_live && e.src_val != o.val) error(VALUE, "assigning from an lvalue or const object changed it to %d", e.src_val);
            Slot nw; nw.which = o.which; nw.val = o.val; nw.heap = false;
            check_direct(px, o.which, out);
            if (!out.threw) {
                if (!(qx == nw)) error(VALUE, "assigning %s gave %s", show(nw).c_str(), show(qx).c_str());
                if (!lvalue_src && F[o.which].nothrow_move && copies) error(MOVE, "assigning an rvalue copied content that can be moved");
            } else check_failed(px, qx, px.which == o.which, nw, px.which != o.which);
            break; }
        case K_TEMP: {
            const Slot& py = pre[o.y];
            if (py.which != o.which) { if (!(qx == px) || !(post[o.y] == py)) error(VALUE, "unexpected change"); break; }
            if (!(post[o.y] == py)) error(VALUE, "assigning from another variant's content changed it");
            check_direct(px, py.which, out);
            if (!out.threw) { if (!(qx == py)) error(VALUE, "assigning the content of %s gave %s", show(py).c_str(), show(qx).c_str()); }
            else check_failed(px, qx, px.which == py.which, py, px.which != py.which);
            break; }
        case K_ALIAS: {
            if (px.which != o.y) { if (!(qx == px)) error(VALUE, "unexpected change"); break; }
            Slot nw; nw.which = o.which; nw.val = px.val >= 50 && o.which != px.which ? V_MOVED : px.val; nw.heap = false;
            if (!out.threw) { if (!(qx == nw)) error(VALUE, "assigning a variant a part of its own content (%s) gave %s", show(nw).c_str(), show(qx).c_str()); }
            else if (o.cat == S_RV) { if (!(qx.which == px.which) && !(qx == nw) && !fallback_state(qx)) error(FAIL, "failed assignment from own member left %s", show(qx).c_str()); }
            else check_failed(px, qx, o.which == px.which, nw, o.which != px.which);
            break; }
        case K_NEWCOPY: case K_NEWMOVE: {
            const Slot& py = pre[o.y];
            if (out.threw) {
                if (!(qx == px) && o.x != o.y) error(VALUE, "a failed construction changed an unrelated variant");
                if (o.kind == K_NEWCOPY && !(post[o.y] == py)) error(VALUE, "a failed copy changed its source");
                if (o.kind == K_NEWMOVE && post[o.y].which != py.which) error(MOVE, "a failed move changed the alternative of its source");
                break;
            }
            if (!(qx == py)) error(o.kind == K_NEWMOVE ? (VALUE | MOVE) : VALUE, "construction from %s gave %s", show(py).c_str(), show(qx).c_str());
            if (o.x != o.y) {
                if (o.kind == K_NEWCOPY) { if (!(post[o.y] == py)) error(VALUE, "copy construction changed the source to %s", show(post[o.y]).c_str()); }
                else if (post[o.y].which != py.which) error(MOVE, "move construction left %s in the source", show(post[o.y]).c_str());
            }
            if (o.kind == K_NEWMOVE && F[py.which].nothrow_move && copies) error(MOVE, "move construction copied content that can be moved");
            break; }
        case K_NEWFROM: {
            if (!e.src_live) error(LIFE, "the argument object was destroyed");
            if (lvalue_src && e.src_live && e.src_val != o.val) error(VALUE, "constructing from an lvalue or const object changed it");
            if (out.threw) { if (!(qx == px)) error(VALUE, "a failed construction changed another variant"); break; }
            if (qx.which != o.which || qx.val != o.val) error(VALUE, "construction from %s(%d) gave %s", F[o.which].name.c_str(), o.val, show(qx).c_str());
            if (!lvalue_src && F[o.which].nothrow_move && copies) error(MOVE, "constructing from an rvalue copied content that can be moved");
            break; }
        case K_NEWDEF:
            if (out.threw) { if (!(qx == px)) error(VALUE, "a failed construction changed another variant"); break; }
            if (qx.which != 0 || qx.val != o.val) error(VALUE, "default construction gave %s", show(qx).c_str());
            break;
        case K_MUT: {
            Slot nw = px; if (px.which == o.which) nw.val = o.val;
            if (!(qx == nw)) error(VALUE, "writing through a reference to the content of %s gave %s", show(px).c_str(), show(qx).c_str());
            break; }
        }
        // placement
        for (int i = 0; i < int(post.size()); ++i) {
            const Slot& s = post[i];
            if (s.which < 0 || F[s.which].rw || !s.heap) continue;
            if (has_fallback) error(PLACE, "content is on the heap although a nothrow default-constructible alternative exists");
            else if (F[s.which].nothrow_copy) error(PLACE, "nothrow-copyable content is on the heap");
        }
        if (!out.threw && qx.heap && !F[qx.which].rw) {
            bool ctor = o.kind == K_NEWCOPY || o.kind == K_NEWMOVE || o.kind == K_NEWFROM || o.kind == K_NEWDEF;
            bool assigned = o.kind == K_COPY || o.kind == K_COPYLV || o.kind == K_MOVE || o.kind == K_SET || o.kind == K_TEMP || o.kind == K_ALIAS;
            if (ctor || (assigned && px.which != qx.which)) error(PLACE, "content is on the heap after a successful operation");
        }
        // a variant with no throwing alternative, or with a fallback, never allocates by itself
        bool any_rw = false, all_nothrow = true;
        for (int i = 0; i < N; ++i) { any_rw |= F[i].rw; all_nothrow &= F[i].nothrow_copy; }
        if (!any_rw && (has_fallback || all_nothrow) && allocs) error(PLACE, "%ld heap allocations in a variant that never needs one", allocs);
    }

    // ---- running one history ----------------------------------------------------------------------
    std::string trace_text(const Trace& t) {
        std::string s = cfg;
        for (std::size_t i = 0; i < t.size(); ++i) {
            s += " " + std::to_string(t[i].op);
            for (std::size_t j = 0; j < t[i].plan.size(); ++j) s += (j ? "," : "@") + std::to_string(t[i].plan[j]);
        }
        return s;
    }
    std::string trace_human(const Trace& t) {
        std::string s = "variants a and b hold " + F[0].name + "(1); then";
        for (std::size_t i = 0; i < t.size(); ++i) {
            s += (i ? "; " : " ") + ops[t[i].op].name;
            for (std::size_t j = 0; j < t[i].plan.size(); ++j) s += (j ? " and at point " : " with a failure at point ") + std::to_string(t[i].plan[j]);
        }
        return s;
    }

    struct RunResult { bool ok; int points; int fired; std::vector<Slot> post; int nblk; bool threw; std::string what; };

    void exec(const Op<V>& o, Env<V>& e, const std::vector<int>& plan, Outcome& out) {
        out.threw = out.injected = false;
        e.fresh = 0; e.ret_self = true; e.src_live = true; e.src_val = o.val;
        { Arm reset(0, 0); }
        MC_TRY { o.run(e, plan); }
#ifndef MC_NO_EXC
        catch (const Injected& x) { out.threw = true; out.injected = x.point == W().last_point || in_plan(plan, x.point); }
        catch (const InjectedAlloc& x) { out.threw = true; out.injected = in_plan(plan, x.point); }
        catch (const std::bad_alloc&) { out.threw = true; out.injected = false; }
        catch (...) { out.threw = true; out.injected = false; }
#endif
        if (e.fresh) {   // a constructing operation replaces its slot
            V* old = e.s[o.x];
            ArmQuiet arm;
            old->~V();
            free((void*)old);
            e.s[o.x] = e.fresh; e.fresh = 0;
        }
    }
    static bool in_plan(const std::vector<int>& p, int k) { for (std::size_t i = 0; i < p.size(); ++i) if (p[i] == k) return true; return false; }

    template <class T> static V* make_first(void* b) {   // T0(1) moved into a variant: the initial state
        Box<T> x(1);
        return new (b) V(std::move(*x.p));
    }

    RunResult run(const Trace& t, bool record) {
        RunResult r; r.ok = true; r.points = r.fired = 0; r.nblk = 0; r.threw = false;
        World& w = W();
        ++runs;
        w.nlive = 0; w.nblk = 0; w.errcat = 0; w.armed = false; w.alloc_faults = opt.alloc_faults; w.yield_hook = 0;
        Shared* sh = shared();
        begin_case(trace_text(t), t.empty() ? "initial" : ops[t.back().op].name, verbose ? trace_human(t) : std::string(), t.empty() ? 0 : int(t.back().plan.size()));
        Env<V> e; memset(&e, 0, sizeof e);
        for (int i = 0; i < opt.nslots; ++i) { Arm arm(0, 0); e.s[i] = make_first<typename At<0>::T>(raw_block<V>()); }
        for (std::size_t i = 0; i + 1 < t.size(); ++i) { Outcome o; exec(ops[t[i].op], e, t[i].plan, o); ++op_execs; }
        std::string opname = "initial";
        if (!t.empty()) {
            const Op<V>& o = ops[t.back().op];
            opname = o.name;
            std::vector<Slot> pre;
            for (int i = 0; i < opt.nslots; ++i) pre.push_back(observe_raw(*e.s[i]));
            Outcome out;
            exec(o, e, t.back().plan, out);
            ++op_execs;
            r.points = w.points; r.fired = w.fired; r.threw = out.threw;
            for (int i = 0; i < opt.nslots; ++i) r.what += text(pre[i]);
            r.what += o.name + (out.threw ? "!" : "") + char('0' + r.fired);
            long copies = w.copies, allocs = w.allocs;
            sh->fired = r.fired;
            sh->phase = 2;
            if (!(w.errcat & ~LIFE)) {   // what the variants hold is judged also after misuse of an object
                const int before = w.errcat;
                int live = 0;
                for (int i = 0; i < opt.nslots; ++i) { Slot s = observe(*e.s[i]); r.post.push_back(s); if (s.which >= 0) live += objects(s.which); }
#ifdef MC_OBS
                r.nblk = w.nblk;
                // once per reached state and operation
                if (!before && !w.errcat && opt.nslots > 1 && (opt.nodedup_depth > 1 || verbose || observed.insert(o.name + key(r)).second)) { observe_more(*e.s[0], *e.s[1]); observe_more(*e.s[1], *e.s[0]); }
#endif
                if (w.errcat == before) {
                    check_model(o, pre, r.post, e, out, r.fired, copies, allocs);
                    if (!w.errcat && w.nlive != live) error(LIFE, "%d content objects are alive, %d variants hold %d", w.nlive, opt.nslots, live);
                }
            }
        } else for (int i = 0; i < opt.nslots; ++i) r.post.push_back(observe(*e.s[i]));
        r.nblk = w.nblk;
        sh->phase = 3;
        if (!w.errcat || (w.errcat & (EMPTY | LIFE)) == 0) {
            for (int i = 0; i < opt.nslots; ++i) { { Arm arm(0, 0); e.s[i]->~V(); } free((void*)e.s[i]); }
            if (w.nlive) error(LIFE, "%d content objects were never destroyed", w.nlive);
            if (w.nblk) error(LIFE, "%d allocations were never released", w.nblk);
        }
        sh->phase = 0;
        if (w.errcat) {
            r.ok = false;
            if (record) for (int i = 0; i < w.nmore; ++i) for (int c = 1; c <= GENERIC; c <<= 1) if (w.more[i].cat & c) report(c, opname, r.fired, w.more[i].msg, t);
        }
        return r;
    }
    Slot observe_raw(V& v) {   // cheap: the state before the operation was fully checked when it was first reached
        Slot s; Seen r; memset(&r, 0, sizeof r); Look look; look.r = &r;
        const V& c = v; boost::apply_visitor(look, c);
        s.which = r.idx; s.val = r.val;
        const char* b = (const char*)&v; const char* p = (const char*)r.p;
        s.heap = !(p >= b && p + r.size <= b + sizeof(V));
        return s;
    }
    int objects(int which) { int n[] = { TI<typename is_rw<Bs>::logical>::objects()... }; return n[which]; }

    void report(int cat, const std::string& op, int fired, const std::string& msg, const Trace& t) {
        ++found;
        std::string k = std::to_string(cat) + "/" + op.substr(0, op.find('('));
        if (seen_viol[k]++ >= 2) return;
        violation(cat, op, fired, msg + " -- history: " + trace_human(t), trace_text(t));
    }

    static std::string text(const Slot& s) { return std::to_string(s.which) + ":" + std::to_string(s.val) + ":" + (s.heap ? "1;" : "0;"); }
    std::string key(const RunResult& r) {
        std::string o;
        for (std::size_t i = 0; i < r.post.size(); ++i) o += text(r.post[i]);
        return o + std::to_string(r.nblk);
    }

    // all fault plans of one operation after one history
    template <class Fn> void expand(const Trace& h, int op, Fn fn) {
        Trace t = h; Step s; s.op = op; t.push_back(s);
        RunResult r = guarded(t, fn);
        ++transitions;
#ifndef MC_NO_EXC
        if (opt.max_faults < 1) return;
        for (int k = 0; k < r.points; ++k) {
            t.back().plan.assign(1, k);
            RunResult r1 = guarded(t, fn);
            ++transitions; ++fault_transitions;
            if (r1.threw) ++failed_ops;
            if (opt.max_faults < 2) continue;
            for (int j = k + 1; j < r1.points; ++j) {
                t.back().plan.assign(1, k); t.back().plan.push_back(j);
                RunResult r2 = guarded(t, fn);
                ++transitions; ++fault_transitions;
                if (r2.threw) ++failed_ops;
            }
        }
#endif
    }
    template <class Fn> RunResult guarded(const Trace& t, Fn fn) {
        RunResult r; r.ok = false; r.points = r.fired = 0; r.nblk = 0; r.threw = false;
        if (skip.count(trace_text(t))) return r;
        r = run(t, true);
        if (r.ok) { std::string k = key(r); outcomes.insert(r.what + " -> " + k); fn(t, r, k); }
        return r;
    }

    void explore() {
        std::map<std::string, int> seen;
        std::deque<Trace> queue;
        Trace t0;
        RunResult r0 = run(t0, true);
        if (!r0.ok) return;
        seen[key(r0)] = 0; queue.push_back(t0);
        struct Push {
            Self* self; std::map<std::string, int>* seen; std::deque<Trace>* q;
            void operator()(const Trace& t, const RunResult& r, const std::string& k) const {
                if (seen->insert(std::make_pair(k, int(t.size()))).second) {
                    self->sample = self->trace_human(t);
                    q->push_back(t);
                    for (std::size_t i = 0; i < r.post.size(); ++i) if (r.post[i].heap) { ++self->heap_states; break; }
                }
            }
        } push = { this, &seen, &queue };
        while (!queue.empty()) {
            Trace h = queue.front(); queue.pop_front();
            for (int o = 0; o < int(ops.size()); ++o) expand(h, o, push);
            if (found > 400 || (opt.max_runs && runs > opt.max_runs)) { shared()->incomplete = 1; break; }
        }
        states = long(seen.size());
        depth = 0; for (std::map<std::string, int>::iterator i = seen.begin(); i != seen.end(); ++i) if (i->second > depth) depth = i->second;
        // without merging states: every history of the given length, single faults
        if (opt.nodedup_depth > 1 && !shared()->incomplete) { Trace t; int mf = opt.max_faults; opt.max_faults = mf < 1 ? mf : 1; blind(t, opt.nodedup_depth); opt.max_faults = mf; }
    }
    struct Collect { std::vector<Trace>* v; void operator()(const Trace& t, const RunResult&, const std::string&) const { v->push_back(t); } };
    void blind(const Trace& h, int d) {
        for (int o = 0; o < int(ops.size()); ++o) {
            std::vector<Trace> next; Collect c = { &next };
            expand(h, o, c);
            if (d > 1) for (std::size_t i = 0; i < next.size(); ++i) blind(next[i], d - 1);
        }
        if (found > 400) shared()->incomplete = 1;
    }
    int depth;

    // ---- static facts, evaluated at run time so that a change never turns into a compile error -----
    void static_facts() {
        World& w = W(); w.errcat = 0;
        bool any_rw = false, ctor = true, asg = true;
        for (int i = 0; i < N; ++i) { any_rw |= F[i].rw; ctor &= F[i].nothrow_move; asg &= F[i].nothrow_move_assign; }
        Trace t;
        if (!any_rw) {
            if (std::is_nothrow_move_constructible<V>::value != ctor) { error(MOVE, "the move constructor is %snoexcept although its alternatives are %s", ctor ? "not " : "", ctor ? "all nothrow movable" : "not"); report(MOVE, "static", 0, w.err, t); w.errcat = 0; }
            if (std::is_nothrow_move_assignable<V>::value != (ctor && asg)) { error(MOVE, "the move assignment is %snoexcept although its alternatives are %s", ctor && asg ? "not " : "", ctor && asg ? "all nothrow movable" : "not"); report(MOVE, "static", 0, w.err, t); w.errcat = 0; }
        }
        if (!std::is_nothrow_destructible<V>::value) report(MOVE, "static", 0, "the destructor may throw", t);
        if (std::is_copy_constructible<V>::value != copyable && copyable) report(VALUE, "static", 0, "the variant is not copy constructible", t);
        if (!std::is_move_constructible<V>::value) report(MOVE, "static", 0, "the variant is not move constructible", t);
        ++transitions;
    }

    Hist(const std::string& c, const Opt& o) : cfg(c), opt(o), runs(0), op_execs(0), states(0), transitions(0), fault_transitions(0), failed_ops(0), heap_states(0), found(0), verbose(false), depth(0)
#ifdef MC_OBS
        , observations(0)
#endif
    { build(); }

    Trace parse(const std::string& s) {
        std::istringstream in(s); std::string w; in >> w; Trace t;
        while (in >> w) {
            Step st; std::size_t a = w.find('@');
            st.op = atoi(w.substr(0, a).c_str());
            if (a != std::string::npos) { std::istringstream q(w.substr(a + 1)); std::string n; while (std::getline(q, n, ',')) st.plan.push_back(atoi(n.c_str())); }
            t.push_back(st);
        }
        return t;
    }
};

// ---- command line of a configuration's binary -----------------------------------------------------
inline Opt opt_from_args(int argc, char** argv) {
    Opt o; o.alloc_faults = true; o.max_faults = 2; o.nodedup_depth = 1; o.max_runs = 0; o.nslots = 2; o.both_vals = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--faults") o.max_faults = atoi(argv[++i]);
        else if (a == "--blind") o.nodedup_depth = atoi(argv[++i]);
        else if (a == "--slots") o.nslots = atoi(argv[++i]);
        else if (a == "--both") o.both_vals = true;
        else if (a == "--max-runs") o.max_runs = atol(argv[++i]);
    }
    return o;
}
template <class H> void run_hist(const std::string& cfg, int argc, char** argv) {
    Opt opt = opt_from_args(argc, argv);
    std::string replay;
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--replay") replay = argv[i + 1];
    if (!replay.empty()) {
        if (replay.substr(0, replay.find(' ')) != cfg) return;
        isolate(cfg, [&](const std::set<std::string>&) {
            H h(cfg, opt); h.verbose = true;
            typename H::Trace t = h.parse(replay);
            if (t.empty()) { h.static_facts(); }
            h.run(t, true);
            emit("{\"replayed\":\"%s\"}\n", esc(h.trace_human(t)).c_str());
        }, 0);
        return;
    }
    isolate(cfg, [&](const std::set<std::string>& skip) {
        H h(cfg, opt);
        h.skip = skip;
        h.static_facts();
        h.explore();
        dump_outcomes(argc, argv, cfg, h.outcomes);
        emit("{\"stats\":\"%s\",\"states\":%ld,\"transitions\":%ld,\"fault_transitions\":%ld,\"failed_operations\":%ld,\"runs\":%ld,\"op_execs\":%ld,\"heap_states\":%ld,\"depth\":%d,\"outcomes\":%ld,\"ops\":%d,\"observations\":%ld,\"complete\":%s,\"digest\":\"%016llx\",\"sample\":\"%s\"}\n",
             cfg.c_str(), h.states, h.transitions, h.fault_transitions, h.failed_ops, h.runs, h.op_execs, h.heap_states, h.depth, long(h.outcomes.size()), int(h.ops.size()), long(h.observations), shared()->incomplete ? "false" : "true", digest(h.outcomes), esc(cfg + ": " + h.sample).c_str());
    }, 8);
}

} // namespace mc
#endif
