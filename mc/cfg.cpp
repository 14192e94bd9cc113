// The same small program under every configuration (C20): all alternatives, pairs and observers; the outcomes
// are compared between configurations. Works without exceptions and without RTTI.
#define MC_MAIN
#include "core.hpp"
#include <boost/variant.hpp>
#include <boost/variant/multivisitors.hpp>
#include <boost/variant/polymorphic_get.hpp>
#include <boost/blank.hpp>
#include <boost/functional/hash.hpp>
#include <boost/type_index.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/push_front.hpp>
#include <sstream>
using namespace mc;

struct Suite2 { std::set<std::string> outcomes, states; long calls; Suite2() : calls(0) {} void out(const std::string& s) { outcomes.insert(s); ++calls; } };
struct Base { int b; Base(int x = 0) : b(x) {} virtual ~Base() {} };
struct Der : Base { int d; Der(int x = 0) : Base(x + 1), d(x) {} friend bool operator==(const Der& a, const Der& b) { return a.d == b.d; } friend bool operator<(const Der& a, const Der& b) { return a.d < b.d; } friend std::size_t hash_value(const Der& a) { return a.d; } template <class O> friend O& operator<<(O& o, const Der& a) { o << "D" << a.d; return o; } };
struct Node;
typedef boost::variant<int, boost::recursive_wrapper<Node> > Tree;
struct Node { Tree l, r; Node(const Tree& a, const Tree& b) : l(a), r(b) {} friend bool operator==(const Node& a, const Node& b) { return a.l == b.l && a.r == b.r; } friend bool operator<(const Node& a, const Node& b) { return a.l < b.l || (!(b.l < a.l) && a.r < b.r); } };
struct Sum : boost::static_visitor<int> { int operator()(int i) const { return i; } int operator()(const Node& n) const { return 100 + boost::apply_visitor(*this, n.l) * 2 + boost::apply_visitor(*this, n.r); } };

typedef boost::variant<int, std::string, double, Der, char, bool> V6;
V6 mk(int a, int v) { switch (a) { case 0: return V6(v); case 1: return V6(std::string(20 * v, 'x')); case 2: return V6(v + 0.5); case 3: return V6(Der(v)); case 4: return V6(char('a' + v)); default: return V6(v == 1); } }
struct Name : boost::static_visitor<std::string> {
    std::string operator()(int) const { return "int"; } std::string operator()(const std::string& s) const { return "str" + std::to_string(s.size()); } std::string operator()(double) const { return "dbl"; }
    std::string operator()(const Der&) const { return "der"; } std::string operator()(char) const { return "chr"; } std::string operator()(bool) const { return "bol"; }
};
struct Name2 : boost::static_visitor<std::string> { template <class A, class B> std::string operator()(const A& a, const B& b) const { return Name()(a) + Name()(b); } };
struct Name3 : boost::static_visitor<std::string> { template <class A, class B, class C> std::string operator()(const A& a, const B& b, const C& c) const { return Name()(a) + Name()(b) + Name()(c); } };
template <class T> void gets(Suite2& s, V6& v, const std::string& id, const char* tn) {
    const V6& c = v;
    T* p = boost::get<T>(&v); const T* q = boost::strict_get<T>(&c); T* r = boost::relaxed_get<T>(&v);
    s.out(id + " get " + tn + (p ? " y" : " n") + (p == q && p == r ? "" : " differ"));
    // the throwing form, in a child: 1 found, 2 bad_get or throw_exception (abort)
    pid_t pid = fork();
    if (!pid) {
        signal(SIGABRT, SIG_DFL);
        MC_TRY { T& x = boost::get<T>(v); _exit(&x == p ? 1 : 3); }
#ifndef MC_NO_EXC
        catch (const boost::bad_get&) { _exit(2); } catch (...) { _exit(4); }
#endif
        _exit(5);
    }
    int st; waitpid(pid, &st, 0);
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st) == SIGABRT ? 2 : 9;
    s.out(id + " getref " + tn + " " + std::to_string(code));
}
template <class T, class V> char ti(const V& v) { return boost::typeindex::type_index(v.type()) == boost::typeindex::type_id<T>() ? 'y' : 'n'; }
template <class V> std::string tname(const V& v) { return std::string(1, ti<int>(v)) + ti<std::string>(v) + ti<double>(v) + ti<Der>(v) + ti<char>(v) + ti<bool>(v) + ti<long>(v); }

template <int I> struct N1 { int v; explicit N1(int x) : v(x) {} N1(const N1& o) : v(o.v) { point(); } N1& operator=(const N1& o) { point(); v = o.v; return *this; } };
struct NV : boost::static_visitor<int> { template <int I> int operator()(const N1<I>& n) const { return I * 1000 + n.v; } };
template <int N> struct Lst { typedef typename boost::mpl::push_front<typename Lst<N - 1>::type, N1<N - 1> >::type type; };
template <> struct Lst<0> { typedef boost::mpl::list0<> type; };
template <class V, int I> void one(Suite2& s) {
    // element I of the reversed list is N1<N-1-I>; assignment from each neighbour, failing once
    V v((N1<I>(3))); V w((N1<0>(4)));
    s.out("big " + std::to_string(v.which() + I) + " " + std::to_string(boost::apply_visitor(NV(), v)));
    w = v; s.out("big= " + std::to_string(w.which() + I) + " " + std::to_string(boost::apply_visitor(NV(), w)));
    N1<1> b(5); int k = 0; bool threw = false;
    MC_TRY { for (k = 0; k < 6; ++k) { Arm arm(&k, 1); w = b; } }
#ifndef MC_NO_EXC
    catch (const Injected&) { threw = true; }
#endif
    W().armed = false;
    (void)threw;
    MC_TRY { k = 1; Arm arm(&k, 1); v = b; }
#ifndef MC_NO_EXC
    catch (const Injected&) { s.out("big! " + std::to_string(v.which() + I) + " " + std::to_string(boost::apply_visitor(NV(), v))); }
#endif
    W().armed = false; boost::get<N1<I> >(&v);
    V x(v); x.swap(w); W().nblk = 0;
}
int main(int argc, char** argv) {
    isolate("cfg", [&](const std::set<std::string>&) {
        Suite2 s; World& w = W(); w.nlive = w.nblk = 0; w.armed = false;
        begin_case("cfg/", "cfg", "cfg");
        for (int a = 0; a < 6; ++a) for (int x = 0; x < 3; ++x) {
            V6 v = mk(a, x); std::string id = std::to_string(a) + "," + std::to_string(x); s.states.insert(id);
            s.out(id + " which " + std::to_string(v.which()) + (v.empty() ? "E" : "")); s.out(id + " visit " + boost::apply_visitor(Name(), v)); s.out(id + " type " + tname(v));
            std::ostringstream o; o << v; s.out(id + " << " + o.str());
            gets<int>(s, v, id, "int"); gets<std::string>(s, v, id, "str"); gets<double>(s, v, id, "dbl"); gets<Der>(s, v, id, "der"); gets<char>(s, v, id, "chr"); gets<bool>(s, v, id, "bol");
            s.out(id + " relaxed " + (boost::relaxed_get<Base>(&v) ? "y" : "n") + (boost::relaxed_get<long>(&v) ? "y" : "n") + " poly " + (boost::polymorphic_relaxed_get<Base>(&v) ? "y" : "n") + (boost::polymorphic_strict_get<Base>(&v) ? "y" : "n") + (boost::polymorphic_get<Der>(&v) ? "y" : "n"));
            for (int b = 0; b < 6; ++b) for (int y = 0; y < 3; ++y) {
                V6 u = mk(b, y); std::string id2 = id + "/" + std::to_string(b) + "," + std::to_string(y);
                s.out(id2 + " cmp " + std::to_string((v == u) + 2 * (v != u) + 4 * (v < u) + 8 * (v > u) + 16 * (v <= u) + 32 * (v >= u)));
                s.out(id2 + " v2 " + boost::apply_visitor(Name2(), v, u)); boost::hash<V6> h; s.out(id2 + " hash " + std::to_string(h(v) == h(u)));
#ifndef BOOST_VARIANT_DO_NOT_SPECIALIZE_STD_HASH
                std::hash<V6> sh; if (sh(v) != h(v)) s.out("std::hash differs");
#endif
                { V6 c(v); c = u; s.out(id2 + " = " + boost::apply_visitor(Name(), c) + (c == u ? "y" : "n")); V6 d(std::move(c)); V6 e(v); e = std::move(d); s.out(id2 + " m= " + boost::apply_visitor(Name(), e) + (e == u ? "y" : "n")); }
                { V6 c(v), d(u); c.swap(d); s.out(id2 + " swap " + std::to_string((c == u) + 2 * (d == v))); }
                for (int c = 0; c < 6; ++c) { V6 z = mk(c, 1); s.out(id2 + " v3 " + boost::apply_visitor(Name3(), v, u, z)); }
            }
        }
        std::vector<Tree> ts; for (int i = 0; i < 3; ++i) ts.push_back(Tree(i)); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ts.push_back(Tree(Node(ts[i], ts[j]))); for (int i = 3; i < 12; ++i) ts.push_back(Tree(Node(ts[i], ts[0])));
        for (std::size_t i = 0; i < ts.size(); ++i) for (std::size_t j = 0; j < ts.size(); ++j) { Tree a(ts[i]); a = ts[j]; Tree b(ts[i]); b.swap(a); s.out("tree " + std::to_string(i) + "," + std::to_string(j) + " " + std::to_string(boost::apply_visitor(Sum(), a)) + " " + std::to_string(boost::apply_visitor(Sum(), b)) + (ts[i] == ts[j] ? "=" : "") + (ts[i] < ts[j] ? "<" : "")); }
#ifdef MC_BIG
        typedef boost::make_variant_over<Lst<MC_BIG>::type>::type Big;
        one<Big, 0>(s);
#ifndef MC_BIG_ONE
        one<Big, 1>(s); one<Big, MC_BIG / 2>(s); one<Big, MC_BIG - 2>(s); one<Big, MC_BIG - 1>(s);
#endif
#endif
        dump_outcomes(argc, argv, "cfg", s.outcomes);
        emit("{\"stats\":\"cfg\",\"states\":%ld,\"transitions\":%ld,\"runs\":%ld,\"outcomes\":%ld,\"complete\":true,\"digest\":\"%016llx\",\"sample\":\"cfg: %s\"}\n", long(s.states.size()), s.calls, s.calls, long(s.outcomes.size()), digest(s.outcomes), esc(*s.outcomes.rbegin()).c_str());
    }, 1);
    return 0;
}
