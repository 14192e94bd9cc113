// Recursive variants as trees (C15): all pairs of trees up to a node bound, every operation, every fault,
// and every operation after every failed one; the expectation is computed on plain reference trees.
#define MC_MAIN
#include "matrix.hpp"
#include <boost/variant/recursive_variant.hpp>
#include <boost/functional/hash.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/contains.hpp>
#include <functional>
namespace boost { inline std::size_t hash_value(const blank&) { return 3; } }
using namespace mc;
#ifndef MC_PART
#define MC_PART 0
#endif
#ifndef MC_NODES1      // node bound for one operation
#define MC_NODES1 4
#endif
#ifndef MC_NODES2      // node bound for a failed operation followed by another
#define MC_NODES2 3
#endif

// ---- reference trees -------------------------------------------------------------------------------------
struct Ref { char k; int v; std::vector<Ref> c; Ref(char kk = '?', int vv = 0) : k(kk), v(vv) {} };
bool operator==(const Ref& a, const Ref& b) { return a.k == b.k && a.v == b.v && a.c == b.c; }
std::string str(const Ref& r) {
    if (r.k == 'L') return r.v == V_MOVED ? "m" : std::to_string(r.v);
    std::string s(1, r.k); if (r.v == V_MOVED) s += "m"; if (r.k == 'K') return s;
    s += "("; for (std::size_t i = 0; i < r.c.size(); ++i) s += (i ? " " : "") + str(r.c[i]); return s + ")";
}
int cores(const Ref& r) { int n = r.k == 'N' || r.k == 'K' ? 0 : 1; for (std::size_t i = 0; i < r.c.size(); ++i) n += cores(r.c[i]); return n; }
int leaves(const Ref& r) { int n = r.k == 'L'; for (std::size_t i = 0; i < r.c.size(); ++i) n += leaves(r.c[i]); return n; }
void values(const Ref& r, std::set<int>& s) { if (r.k == 'L') s.insert(r.v); for (std::size_t i = 0; i < r.c.size(); ++i) values(r.c[i], s); }
int order(const char* kinds, const Ref& a, const Ref& b) {   // -1, 0, 1
    int i = int(strchr(kinds, a.k) - kinds), j = int(strchr(kinds, b.k) - kinds);
    if (i != j) return i < j ? -1 : 1;
    if (a.k == 'L') return a.v < b.v ? -1 : a.v > b.v;
    for (std::size_t n = 0; n < a.c.size() && n < b.c.size(); ++n) if (int o = order(kinds, a.c[n], b.c[n])) return o;
    return a.c.size() < b.c.size() ? -1 : a.c.size() > b.c.size();
}
// what a failed assignment of y over x may leave: whole old or new values at every node
bool mix(const Ref& r, const Ref& x, const Ref& y, bool fallback) {
    if (r == x || r == y) return true;
    if (x.k != y.k) return fallback && r.k == 'K';
    if (r.k != x.k) return false;
    if (r.k == 'N') { std::set<int> a, b; values(x, a); values(y, a); values(r, b); for (std::set<int>::iterator i = b.begin(); i != b.end(); ++i) if (!a.count(*i)) return false; return true; }
    if (r.k == 'L') return r.v == x.v || r.v == y.v;
    if (r.v != x.v && r.v != y.v) return false;
    if (r.c.size() != x.c.size() || x.c.size() != y.c.size()) return false;
    for (std::size_t i = 0; i < r.c.size(); ++i) if (!mix(r.c[i], x.c[i], y.c[i], fallback)) return false;
    return true;
}
bool uses_only(const Ref& r, const Ref& x, const Ref& y) {
    std::set<int> a, b; values(x, a); values(y, a); a.insert(V_MOVED); values(r, b);
    for (std::set<int>::iterator i = b.begin(); i != b.end(); ++i) if (!a.count(*i)) return false;
    return true;
}
std::vector<Ref> trees(const char* kinds, int bound) {
    std::vector<std::vector<Ref> > by(bound + 1);
    for (int n = 1; n <= bound; ++n) {
        if (n == 1) { by[1].push_back(Ref('L', 1)); by[1].push_back(Ref('L', 2)); if (strchr(kinds, 'K')) by[1].push_back(Ref('K')); }
        if (strchr(kinds, 'U')) for (std::size_t i = 0; i < by[n - 1].size(); ++i) { Ref r('U'); r.c.push_back(by[n - 1][i]); by[n].push_back(r); }
        if (strchr(kinds, 'B')) for (int l = 1; l < n - 1; ++l) for (std::size_t i = 0; i < by[l].size(); ++i) for (std::size_t j = 0; j < by[n - 1 - l].size(); ++j) { Ref r('B'); r.c.push_back(by[l][i]); r.c.push_back(by[n - 1 - l][j]); by[n].push_back(r); }
        if (strchr(kinds, 'N')) {   // any number of children with n - 1 nodes in all
            std::function<void(Ref, int)> rec = [&](Ref r, int left) {
                if (!left) { by[n].push_back(r); return; }
                for (int l = 1; l <= left; ++l) { if (l >= n) break; for (std::size_t i = 0; i < by[l].size(); ++i) { Ref q = r; q.c.push_back(by[l][i]); rec(q, left - l); } }
            };
            rec(Ref('N'), n - 1);
        }
    }
    std::vector<Ref> out; for (int n = 1; n <= bound; ++n) out.insert(out.end(), by[n].begin(), by[n].end());
    return out;
}

// ---- nodes -------------------------------------------------------------------------------------------------
template <class V, class Tag = TT<1> > struct UnT {
    Tag tag; V child;
    UnT(const V& c) : tag(5), child(c) {} UnT(V&& c) : tag(5), child(std::move(c)) {}
    friend bool operator==(const UnT& a, const UnT& b) { return a.child == b.child; }
    friend bool operator<(const UnT& a, const UnT& b) { return a.child < b.child; }
    friend std::size_t hash_value(const UnT& a) { std::size_t s = 1; boost::hash_combine(s, a.child); return s; }
    template <class O> friend O& operator<<(O& o, const UnT& a) { o << "U(" << a.child << ")"; return o; }
};
template <class V, class Tag = TN<2> > struct BinT {
    Tag tag; V l, r;
    BinT(const V& a, const V& b) : tag(6), l(a), r(b) {}
    BinT(V&& a, V&& b) : tag(6), l(std::move(a)), r(std::move(b)) {}
    friend bool operator==(const BinT& a, const BinT& b) { return a.l == b.l && a.r == b.r; }
    friend bool operator<(const BinT& a, const BinT& b) { return a.l < b.l || (!(b.l < a.l) && a.r < b.r); }
    friend std::size_t hash_value(const BinT& a) { std::size_t s = 2; boost::hash_combine(s, a.l); boost::hash_combine(s, a.r); return s; }
    template <class O> friend O& operator<<(O& o, const BinT& a) { o << "B(" << a.l << " " << a.r << ")"; return o; }
};
// leaves that count how often they are hashed
template <class B> struct Lf : B {
    explicit Lf(int v) : B(v) {}
    Lf(const Lf&) = default; Lf(Lf&&) = default; Lf& operator=(const Lf&) = default; Lf& operator=(Lf&&) = default;
    friend std::size_t hash_value(const Lf& a) { ++W().calls; return std::size_t(a.val + 1000); }
};
template <class V> Ref look(const V& v);
inline Ref node(const Core& c) { touch(&c, c.tid, "reading"); return Ref('L', c.val); }
inline Ref node(const boost::blank&) { return Ref('K'); }
template <class V, class T> Ref node(const UnT<V, T>& u) { Ref r('U'); touch(&u.tag, T::TID, "reading"); if (u.tag.val != 5 && u.tag.val != V_MOVED) error(VALUE, "a node lost its own data"); r.v = u.tag.val == V_MOVED ? V_MOVED : 0; if (!W().errcat) r.c.push_back(look(u.child)); return r; }
template <class V, class T> Ref node(const BinT<V, T>& u) { Ref r('B'); touch(&u.tag, T::TID, "reading"); if (u.tag.val != 6 && u.tag.val != V_MOVED) error(VALUE, "a node lost its own data"); r.v = u.tag.val == V_MOVED ? V_MOVED : 0; if (!W().errcat) r.c.push_back(look(u.l)); if (!W().errcat) r.c.push_back(look(u.r)); return r; }
template <class V> Ref node(const std::vector<V>& u) { Ref r('N'); for (std::size_t i = 0; i < u.size() && !W().errcat; ++i) r.c.push_back(look(u[i])); return r; }
struct Look : boost::static_visitor<Ref> { template <class T> Ref operator()(const T& t) const { return node(t); } };
template <class V> Ref look(const V& v) { if (v.empty()) { error(EMPTY, "empty"); return Ref(); } Look l; return boost::apply_visitor(l, v); }
// writes into every leaf
template <class V> void bump(V& v);
inline void bump_node(Core& c) { if (c.val > 0) c.val = c.val % 2 + 1; }
inline void bump_node(boost::blank&) {}
template <class V, class T> void bump_node(UnT<V, T>& u) { bump(u.child); }
template <class V, class T> void bump_node(BinT<V, T>& u) { bump(u.l); bump(u.r); }
template <class V> void bump_node(std::vector<V>& u) { for (std::size_t i = 0; i < u.size(); ++i) bump(u[i]); }
struct Bump : boost::static_visitor<> { template <class T> void operator()(T& t) const { bump_node(t); } };
template <class V> void bump(V& v) { Bump b; boost::apply_visitor(b, v); }
Ref bumped(Ref r) { if (r.k == 'L' && r.v > 0) r.v = r.v % 2 + 1; for (std::size_t i = 0; i < r.c.size(); ++i) r.c[i] = bumped(r.c[i]); return r; }

template <class V> struct AssignConst : boost::static_visitor<> { V* t; template <class T> void operator()(const T& x) const { *t = x; } };
template <class V> struct AssignMove : boost::static_visitor<> { V* t; template <class T> void operator()(T& x) const { *t = std::move(x); } };
template <class V> struct NewConst : boost::static_visitor<V*> { template <class T> V* operator()(const T& x) const { return new V(x); } };
template <class V> const V* child_of(const Core&) { return 0; }
template <class V> const V* child_of(const boost::blank&) { return 0; }
template <class V, class T> const V* child_of(const UnT<V, T>& u) { return &u.child; }
template <class V, class T> const V* child_of(const BinT<V, T>& u) { return &u.r; }
template <class V> const V* child_of(const std::vector<V>& u) { return u.empty() ? 0 : &u.back(); }
template <class V> struct Child : boost::static_visitor<const V*> { template <class T> const V* operator()(const T& t) const { return child_of<V>(t); } };

// ---- the kinds of trees ------------------------------------------------------------------------------------
struct UnA; struct BinA; typedef Lf<TT<0> > LfT; typedef Lf<TN<0> > LfN; typedef Lf<NN<0> > LfNN;
typedef boost::variant<LfT, boost::recursive_wrapper<UnA>, boost::recursive_wrapper<BinA> > A;
struct UnA : UnT<A> { UnA(const A& c) : UnT<A>(c) {} UnA(A&& c) : UnT<A>(std::move(c)) {} };
struct BinA : BinT<A> { BinA(const A& a, const A& b) : BinT<A>(a, b) {} BinA(A&& a, A&& b) : BinT<A>(std::move(a), std::move(b)) {} };
struct CfgA { typedef A V; typedef LfT Leaf; typedef UnA Un; typedef BinA Bin; static const char* kinds() { return "LUB"; } };
struct UnB; struct BinB;
typedef boost::variant<boost::recursive_wrapper<BinB>, boost::recursive_wrapper<UnB>, LfN> B;
struct UnB : UnT<B, NN<1> > { UnB(const B& c) : UnT<B, NN<1> >(c) {} UnB(B&& c) : UnT<B, NN<1> >(std::move(c)) {} };
struct BinB : BinT<B, NN<2> > { BinB(const B& a, const B& b) : BinT<B, NN<2> >(a, b) {} BinB(B&& a, B&& b) : BinT<B, NN<2> >(std::move(a), std::move(b)) {} };
struct CfgB { typedef B V; typedef LfN Leaf; typedef UnB Un; typedef BinB Bin; static const char* kinds() { return "BUL"; } };
typedef boost::recursive_variant_ X;
typedef boost::make_recursive_variant<LfT, UnT<X>, BinT<X> >::type C;
struct CfgC { typedef C V; typedef LfT Leaf; typedef UnT<V> Un; typedef BinT<V> Bin; static const char* kinds() { return "LUB"; } };
typedef boost::make_recursive_variant<boost::blank, BinT<X, TT<2> >, LfNN, UnT<X, NN<1> > >::type D;
struct CfgD { typedef D V; typedef LfNN Leaf; typedef UnT<V, NN<1> > Un; typedef BinT<V, TT<2> > Bin; static const char* kinds() { return "KBLU"; } };
typedef boost::make_recursive_variant<LfT, std::vector<X> >::type E;
struct NoNode { template <class V> NoNode(const V&) {} template <class V> NoNode(const V&, const V&) {} };
struct CfgE { typedef E V; typedef LfT Leaf; typedef NoNode Un; typedef NoNode Bin; static const char* kinds() { return "LN"; } };
typedef boost::make_recursive_variant_over<boost::mpl::vector<std::vector<X>, LfN, boost::blank> >::type F;
struct CfgF { typedef F V; typedef LfN Leaf; typedef NoNode Un; typedef NoNode Bin; static const char* kinds() { return "NLK"; } };

template <class V, class N> struct Mk { template <class... T> static V go(T&&... t) { return V(N(std::forward<T>(t)...)); } };
template <class V> struct Mk<V, NoNode> { template <class... T> static V go(T&&...) { abort(); } };
template <class V> V blank_of(std::true_type) { return V(boost::blank()); }
template <class V> V blank_of(std::false_type) { abort(); }
template <class V> V vec_of(std::vector<V>& a, std::true_type) { return V(std::move(a)); }
template <class V> V vec_of(std::vector<V>&, std::false_type) { abort(); }

template <class Cfg> struct Tree {
    typedef typename Cfg::V V; typedef typename Cfg::Un Un; typedef typename Cfg::Bin Bin; typedef typename Cfg::Leaf Leaf;
    typedef std::integral_constant<bool, boost::mpl::contains<typename V::types, boost::blank>::value> HasBlank;
    typedef std::integral_constant<bool, std::is_same<Un, NoNode>::value> IsVec;
    static V make(const Ref& r) {
        switch (r.k) {
        case 'L': return V(Leaf(r.v));
        case 'K': return blank_of<V>(HasBlank());
        case 'U': return Mk<V, Un>::go(make(r.c[0]));
        case 'B': return Mk<V, Bin>::go(make(r.c[0]), make(r.c[1]));
        default: { std::vector<V> a; for (std::size_t i = 0; i < r.c.size(); ++i) a.push_back(make(r.c[i])); return vec_of<V>(a, IsVec()); }
        }
    }
    struct Two { V* a; V* b; };
    // c copies, m moves from b, s swap, w write, x only a changes and b is only read
    struct Op { const char* name; char kind; std::function<void(Two&)> run; std::function<Ref(const Ref&, const Ref&)> want; std::function<bool(const Ref&, const Ref&)> can; };
    std::vector<Op> ops;
    void add(const char* n, char k, std::function<void(Two&)> run, std::function<Ref(const Ref&, const Ref&)> want, std::function<bool(const Ref&, const Ref&)> can = nullptr) { Op o = { n, k, run, want, can }; ops.push_back(o); }
    static Ref wrap1(const Ref& a) { Ref r('U'); r.c.push_back(a); return r; }
    static Ref wrap2(const Ref& a, const Ref& b) { Ref r(IsVec::value ? 'N' : 'B'); r.c.push_back(a); r.c.push_back(b); return r; }
    static void join(Two& t, std::true_type) { std::vector<V> v; v.reserve(2); v.push_back(*t.a); v.push_back(*t.b); *t.a = v; }
    static void join(Two& t, std::false_type) { *t.a = Bin(*t.a, *t.b); }
    static void hang(Two& t, std::true_type) { *t.a = std::vector<V>(1, *t.b); }
    static void hang(Two& t, std::false_type) { *t.a = Un(const_cast<const V&>(*t.b)); }
    void build() {
        auto second = [](const Ref&, const Ref& b) { return b; };
        add("copy-assign", 'c', [](Two& t) { V& r = (*t.a = const_cast<const V&>(*t.b)); MC_CHECK(&r == t.a, "assignment does not return its left operand"); }, second);
        add("move-assign", 'm', [](Two& t) { V& r = (*t.a = std::move(*t.b)); MC_CHECK(&r == t.a, "assignment does not return its left operand"); }, second);
        add("member-swap", 's', [](Two& t) { t.a->swap(*t.b); }, second);
        add("swap", 's', [](Two& t) { swap(*t.a, *t.b); }, second);
        add("copy-construct", 'n', [](Two& t) { V* n = new V(const_cast<const V&>(*t.b)); delete t.a; t.a = n; }, second);
        add("copy-construct-lvalue", 'n', [](Two& t) { V* n = new V(*t.b); delete t.a; t.a = n; }, second);
        add("move-construct", 'o', [](Two& t) { V* n = new V(std::move(*t.b)); delete t.a; t.a = n; }, second);
        add("assign-content", 'c', [](Two& t) { AssignConst<V> v; v.t = t.a; boost::apply_visitor(v, const_cast<const V&>(*t.b)); }, second);
        add("move-assign-content", 'm', [](Two& t) { AssignMove<V> v; v.t = t.a; boost::apply_visitor(v, *t.b); }, second);
        add("construct-content", 'n', [](Two& t) { NewConst<V> v; V* n = boost::apply_visitor(v, const_cast<const V&>(*t.b)); delete t.a; t.a = n; }, second);
        add("self-assign", 'c', [](Two& t) { *t.a = const_cast<const V&>(*t.a); }, [](const Ref& a, const Ref&) { return a; });
        add("self-swap", 'S', [](Two& t) { t.a->swap(*t.a); }, [](const Ref& a, const Ref&) { return a; });
        add("hang-under-node", 'x', [](Two& t) { hang(t, IsVec()); }, [](const Ref&, const Ref& b) { Ref r(IsVec::value ? 'N' : 'U'); r.c.push_back(b); return r; });
        add("join", 'x', [](Two& t) { join(t, IsVec()); }, [](const Ref& a, const Ref& b) { return wrap2(a, b); });
        add("take-child-copy", 'x', [](Two& t) { Child<V> c; V n(*boost::apply_visitor(c, const_cast<const V&>(*t.a))); *t.a = std::move(n); }, [](const Ref& a, const Ref&) { return a.c.back(); }, [](const Ref& a, const Ref&) { return !a.c.empty(); });
        add("take-others-child", 'c', [](Two& t) { Child<V> c; *t.a = *boost::apply_visitor(c, const_cast<const V&>(*t.b)); }, [](const Ref&, const Ref& b) { return b.c.back(); }, [](const Ref&, const Ref& b) { return !b.c.empty(); });
        add("write-leaves", 'w', [](Two& t) { bump(*t.a); }, [](const Ref& a, const Ref&) { return bumped(a); });
        add("assign-leaf", 'x', [](Two& t) { Leaf l(2); *t.a = const_cast<const Leaf&>(l); }, [](const Ref&, const Ref&) { return Ref('L', 2); });
    }
    struct Step { int op, fault; };   // fault -1: none
    struct Res { int points; bool threw; Ref a, b; bool ok; };
    // what the step did, against what it may do
    void judge(const Op& o, bool threw, const Ref& a, const Ref& b, const Ref& qa, const Ref& qb) {
        const bool fb = HasBlank::value;
        if (!threw) {
            Ref e = o.want(a, b);
            MC_CHECK(qa == e, "%s gave %s, expected %s", o.name, str(qa).c_str(), str(e).c_str());
            switch (o.kind) {
            case 's': MC_CHECK(qb == a, "%s left %s in the other, expected %s", o.name, str(qb).c_str(), str(a).c_str()); break;
            case 'm': case 'o': MC_CHECK(uses_only(qb, a, b), "%s left %s in the source", o.name, str(qb).c_str()); break;
            default: MC_CHECK(qb == b, "%s changed the other tree to %s", o.name, str(qb).c_str());
            }
            return;
        }
        MC_CHECK(W().fired > 0, "%s failed by itself", o.name);
        Ref e = o.want(a, b);
        switch (o.kind) {
        case 'c': case 'x': MC_CHECK(mix(qa, a, e, fb), "failed %s left %s", o.name, str(qa).c_str()); MC_CHECK(qb == b, "failed %s changed the other tree to %s", o.name, str(qb).c_str()); break;
        case 'S': MC_CHECK(uses_only(qa, a, a) && qb == b, "failed %s left %s and %s", o.name, str(qa).c_str(), str(qb).c_str()); break;
        case 'n': MC_CHECK(qa == a && qb == b, "failed %s changed a tree", o.name); break;
        case 'o': MC_CHECK(qa == a, "failed %s changed an unrelated tree", o.name); MC_CHECK(uses_only(qb, b, b), "failed %s left %s", o.name, str(qb).c_str()); break;
        default: MC_CHECK(uses_only(qa, a, b) && uses_only(qb, a, b), "failed %s left %s and %s", o.name, str(qa).c_str(), str(qb).c_str());
        }
    }
    std::string text(const Ref& a, const Ref& b, const std::vector<Step>& h) {
        std::string s = str(a) + " " + str(b) + ":";
        for (std::size_t i = 0; i < h.size(); ++i) { s += std::string(i ? "; " : " ") + ops[h[i].op].name; if (h[i].fault >= 0) s += "!" + std::to_string(h[i].fault); }
        return s;
    }
    Res run(Suite& su, const char* nm, const Ref& a0, const Ref& b0, const std::vector<Step>& h) {
        Res r; r.ok = false; r.points = 0; r.threw = false;
        std::string id = std::string(nm) + "/" + text(a0, b0, h);
        bool ran = false;
        su.run(id, [&] {
            ran = true; World& w = W(); Two t; Ref a = a0, b = b0;
            { ArmQuiet q; t.a = new V(make(a)); t.b = new V(make(b)); }
            for (std::size_t i = 0; i < h.size() && !w.errcat; ++i) {
                const Op& o = ops[h[i].op]; int plan = h[i].fault;
                r.threw = false;
                { Arm arm(&plan, plan >= 0 ? 1 : 0); w.alloc_faults = true;
                  try { o.run(t); } catch (const Injected& e) { r.threw = true; if (e.point != w.last_point) error(FAIL, "another exception escaped"); } catch (const InjectedAlloc& e) { r.threw = true; if (e.point != w.last_point) error(FAIL, "another exception escaped"); }
                  w.alloc_faults = false; }
                r.points = w.points; ++su.calls;
                if (w.errcat) break;
                shared()->phase = 2;
                Ref qa = look(*t.a), qb = look(*t.b);
                if (w.errcat) break;
                MC_CHECKC(LIFE, w.nlive == cores(qa) + cores(qb), "%d content objects are alive, the two trees have %d", w.nlive, cores(qa) + cores(qb));
                judge(o, r.threw, a, b, qa, qb);
                if (i + 1 == h.size()) observe(*t.a, *t.b, qa, qb);
                a = qa; b = qb; shared()->phase = 1;
            }
            r.a = a; r.b = b; shared()->phase = 3;
            if (!w.errcat) { ArmQuiet q; delete t.a; delete t.b; }
            r.ok = !w.errcat;
        });
        if (!ran) r.ok = false;
        return r;
    }
    void observe(const V& a, const V& b, const Ref& ra, const Ref& rb) {
        int o = order(Cfg::kinds(), ra, rb);
        MC_CHECK((a == b) == (o == 0) && (b == a) == (o == 0) && (a != b) == (o != 0), "== says %d", int(a == b));
        MC_CHECK((a < b) == (o < 0) && (b < a) == (o > 0) && (a > b) == (o > 0) && (a <= b) == (o <= 0) && (a >= b) == (o >= 0), "< says %d, the trees compare %d", int(a < b), o);
        W().calls = 0; boost::hash<V> hs; std::size_t h = hs(a);
        MC_CHECK(W().calls == leaves(ra), "hashing looked at %ld of %d leaves", W().calls, leaves(ra));
        if (o == 0) MC_CHECK(h == hs(b), "equal trees have different hashes");
        Ref again = look(a); MC_CHECK(again == ra, "observing changed the tree");
    }
    void explore(Suite& su, const char* nm) {
        build();
        std::vector<Ref> ts = trees(Cfg::kinds(), MC_NODES1 > MC_NODES2 ? MC_NODES1 : MC_NODES2);
        std::function<int(const Ref&)> size = [&](const Ref& r) { int n = 1; for (std::size_t i = 0; i < r.c.size(); ++i) n += size(r.c[i]); return n; };
        for (std::size_t i = 0; i < ts.size(); ++i) for (std::size_t j = 0; j < ts.size(); ++j) {
            const Ref &a = ts[i], &b = ts[j]; bool two = size(a) <= MC_NODES2 && size(b) <= MC_NODES2, one = size(a) <= MC_NODES1 && size(b) <= MC_NODES1;
            if (!one && !two) continue;
            su.state(std::string(nm) + str(a) + " " + str(b));
            for (int o = 0; o < int(ops.size()); ++o) {
                if (ops[o].can && !ops[o].can(a, b)) continue;
                std::vector<Step> h(1); h[0].op = o; h[0].fault = -1;
                Res r = run(su, nm, a, b, h); note(su, nm, o, r);
                for (int k = -1; k < r.points; ++k) {
                    h.resize(1); h[0].fault = k;
                    if (k < 0 && !two) continue;
                    Res r1 = k < 0 ? r : run(su, nm, a, b, h); if (k >= 0) note(su, nm, o, r1);
                    if (!two || !r1.ok) continue;
#ifndef MC_AFTER_SUCCESS
                    if (k < 0) continue;
#endif
                    if (size(r1.a) + size(r1.b) > 2 * MC_NODES2) continue;
                    h.resize(2); h[1].fault = -1;
                    for (int p = 0; p < int(ops.size()); ++p) {
                        if (ops[p].can && !ops[p].can(r1.a, r1.b)) continue;
                        h[1].op = p; h[1].fault = -1;
                        Res r2 = run(su, nm, a, b, h); note(su, nm, p, r2);
#ifdef MC_SECOND_FAULT
                        for (int f = 0; f < r2.points; ++f) { h[1].fault = f; note(su, nm, p, run(su, nm, a, b, h)); }
#endif
                    }
                }
            }
        }
        // long chains: built, copied, compared, moved, destroyed
        su.run(std::string(nm) + "/chain", [&] {
            ++su.calls; const int N = 300; Ref r('L', 1);
            for (int i = 0; i < N; ++i) { Ref q(IsVec::value ? 'N' : 'U'); q.c.push_back(r); r = q; }
            ArmQuiet q; V a(make(r)), b(a), c(std::move(a)); MC_CHECK(b == c && look(b) == r && look(c) == r, "a chain of %d nodes was not copied", N); swap(b, c); bump(b); MC_CHECK(look(b) == bumped(r) && look(c) == r, "writing into one chain shows in another"); MC_CHECK(!(b == c) && (c < b) && !(b < c), "chains that differ at the end compare wrongly");
            W().armed = true;
        });
    }
    void note(Suite& su, const char* nm, int o, const Res& r) { if (r.ok) su.outcomes.insert(std::string(nm) + ops[o].name + (r.threw ? "!" : "") + str(r.a) + " " + str(r.b)); }
};
template <class Cfg> void go(Suite& s, const char* n) { Tree<Cfg> t; t.explore(s, n); }

// two variants that contain each other, and a variant that holds itself through pointers
struct P; struct Q; typedef boost::variant<TT<0>, boost::recursive_wrapper<Q> > VP; typedef boost::variant<TN<1>, boost::recursive_wrapper<P> > VQ;
struct P { VP v; P(const VP& x) : v(x) {} }; struct Q { VQ v; Q(const VQ& x) : v(x) {} };
std::string lookq(const VQ& q); struct LP : boost::static_visitor<std::string> { std::string operator()(const TT<0>& t) const { return std::to_string(t.val); } std::string operator()(const Q& q) const { return "Q" + lookq(q.v); } std::string operator()(const TN<1>& t) const { return "n" + std::to_string(t.val); } std::string operator()(const P& p) const { return "P" + boost::apply_visitor(LP(), p.v); } };
std::string lookq(const VQ& q) { return boost::apply_visitor(LP(), q); }
void mutual(Suite& s) {
    for (int d = 0; d < 5; ++d) for (int e = 0; e < 5; ++e) {
        std::function<VP(int)> mp; std::function<VQ(int)> mq;
        mp = [&](int n) { return n ? VP(Q(mq(n - 1))) : VP(TT<0>(1)); }; mq = [&](int n) { return n ? VQ(P(mp(n - 1))) : VQ(TN<1>(2)); };
        std::function<std::string(int, bool)> want; want = [&](int n, bool p) { return n ? (p ? "Q" : "P") + want(n - 1, !p) : std::string(p ? "1" : "n2"); };
        for (int f = -1; f < 40; ++f) {
            bool more = false;
            s.run("mutual/" + std::to_string(d) + "," + std::to_string(e) + "!" + std::to_string(f), [&] {
                ++s.calls; std::unique_ptr<VP> a, b; { ArmQuiet q; a.reset(new VP(mp(d))); b.reset(new VP(mp(e))); } bool threw = false;
                { Arm arm(&f, f >= 0 ? 1 : 0); W().alloc_faults = true; try { *a = *b; } catch (const Injected&) { threw = true; } catch (const InjectedAlloc&) { threw = true; } W().alloc_faults = false; }
                std::string x = boost::apply_visitor(LP(), *a), y = boost::apply_visitor(LP(), *b);
                MC_CHECK(y == want(e, true), "the source became %s", y.c_str()); MC_CHECK(x == want(e, true) || (threw && x == want(d, true)), "assignment of %s over %s gave %s", y.c_str(), want(d, true).c_str(), x.c_str());
                more = f < W().points; s.outcomes.insert(x + y); s.state("mutual" + std::to_string(d) + "," + std::to_string(e));
                ArmQuiet q; a.reset(); b.reset();
            });
            if (!more) break;
        }
    }
}
int main(int argc, char** argv) {
    run_matrix("tree", argc, argv, [](Suite& s) {
#if MC_PART == 0
        go<CfgA>(s, "A"); mutual(s);
#elif MC_PART == 1
        go<CfgB>(s, "B");
#elif MC_PART == 2
        go<CfgC>(s, "C");
#elif MC_PART == 3
        go<CfgD>(s, "D");
#elif MC_PART == 4
        go<CfgE>(s, "E");
#elif MC_PART == 5
        go<CfgF>(s, "F");
#endif
    });
    return 0;
}
