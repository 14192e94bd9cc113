// What a failed assignment may leave (C04): type list x held alternative x assigned alternative x way of assigning
// x point of failure, then the same again on what it left. The lists are generated (MC_LISTS): RUN(name, types...).
#define MC_MAIN
#include "matrix.hpp"
using namespace mc;
static int alive, boom;
struct Bang {};
inline void tick() { if (boom && --boom == 0) throw Bang(); }
// E: copy may throw.  D: the same, nothrow default constructor.  F: its default constructor may throw.  M: nothrow move.
template <int I> struct E { int v; char pad[1 + I % 3]; enum { fall = 0 }; explicit E(int x) : v(x) { ++alive; } E(const E& o) noexcept(false) : v(o.v) { tick(); ++alive; } E& operator=(const E& o) noexcept(false) { tick(); v = o.v; return *this; } ~E() { --alive; v = -5; } };
template <int I> struct D { int v; char pad[1 + I % 3]; enum { fall = 1 }; D() noexcept : v(0) { ++alive; } explicit D(int x) : v(x) { ++alive; } D(const D& o) noexcept(false) : v(o.v) { tick(); ++alive; } D& operator=(const D& o) noexcept(false) { tick(); v = o.v; return *this; } ~D() { --alive; v = -5; } };
template <int I> struct F { int v; char pad[1 + I % 3]; enum { fall = 0 }; F() noexcept(false) : v(0) { tick(); ++alive; } explicit F(int x) : v(x) { ++alive; } F(const F& o) noexcept(false) : v(o.v) { tick(); ++alive; } F& operator=(const F& o) noexcept(false) { tick(); v = o.v; return *this; } ~F() { --alive; v = -5; } };
template <int I> struct M { int v; char pad[1 + I % 3]; enum { fall = 0 }; explicit M(int x) : v(x) { ++alive; } M(const M& o) noexcept(false) : v(o.v) { tick(); ++alive; } M(M&& o) noexcept : v(o.v) { ++alive; } M& operator=(const M& o) noexcept(false) { tick(); v = o.v; return *this; } ~M() { --alive; v = -5; } };
template <class T> struct Kind { enum { fall = T::fall }; typedef T type; static T make(int v) { return T(v); } static int of(const T& t) { return t.v; } };
template <> struct Kind<int> { enum { fall = 1 }; typedef int type; static int make(int v) { return v; } static int of(int t) { return t; } };
template <> struct Kind<boost::blank> { enum { fall = 1 }; typedef boost::blank type; static boost::blank make(int) { return boost::blank(); } static int of(boost::blank) { return 0; } };
template <class T> struct Kind<boost::recursive_wrapper<T> > : Kind<T> { enum { fall = 0 }; };

struct Read : boost::static_visitor<int> { template <class T> int operator()(const T& t) const { return Kind<T>::of(t); } };
struct Slot { int which, val; bool operator==(const Slot& o) const { return which == o.which && val == o.val; } };
enum { W_CONST, W_RVALUE, W_COPY, W_MOVE, NWAYS };
static const char* ways[] = { "const value", "rvalue", "copy", "move" };

template <class V, class... T> struct Run {
    enum { N = sizeof...(T) };
    typedef V* (*Make)(int); typedef void (*Set)(V&, int, int);
    template <class K> static V* mk(int v) { const typename Kind<K>::type t(Kind<K>::make(v)); return new V(t); }
    // the point of failure counts from the assignment
    template <class K> static void set(V& x, int v, int k) { typedef typename Kind<K>::type U; const U t(Kind<K>::make(v)); boom = k; x = t; }
    template <class K> static void setr(V& x, int v, int k) { typedef typename Kind<K>::type U; U t(Kind<K>::make(v)); boom = k; x = std::move(t); }
    static V* make(int i, int v) { static const Make t[] = { &mk<T>... }; return t[i](v); }
    static int fall(int i) { static const int t[] = { int(Kind<T>::fall)... }; return t[i]; }
    static int blank(int i) { static const int t[] = { int(std::is_same<T, boost::blank>::value)... }; return t[i]; }
    static bool assign(V& x, int j, int v, int way, int k) {   // true: it failed
        static const Set t[] = { &set<T>... }; static const Set u[] = { &setr<T>... };
        std::unique_ptr<V> src(make(j, v)); bool threw = false;
        try { if (way == W_CONST) t[j](x, v, k); else if (way == W_RVALUE) u[j](x, v, k); else { boom = k; if (way == W_COPY) x = const_cast<const V&>(*src); else x = std::move(*src); } }
        catch (const Bang&) { threw = true; }
        boom = 0;
        if (way == W_COPY || way == W_CONST) { Slot q = read(*src, "source"), w = { j, blank(j) ? 0 : v }; MC_CHECKC(FAIL, q == w, "the source changed"); }
        return threw;
    }
    static Slot read(V& v, const char* what) {
        Slot s; s.which = v.which(); const V& c = v;
        MC_CHECKC(FAIL, s.which >= 0 && s.which < N && !v.empty(), "%s: which() is %d", what, s.which);
        s.val = boost::apply_visitor(Read(), c); return s;
    }
    static void relation(const Slot& pre, const Slot& post, int j, int nv, bool threw, const char* name) {
        if (!threw) { Slot w = { j, blank(j) ? 0 : nv }; MC_CHECKC(FAIL, post == w, "%s: assignment gave alternative %d value %d", name, post.which, post.val); return; }
        if (post == pre) return;
        if (pre.which == j) { MC_CHECKC(FAIL, post.which == j, "%s: a failed assignment of the content changed the alternative to %d", name, post.which); return; }
        bool any = false, bl = false;
        for (int i = 0; i < N; ++i) { any |= fall(i) != 0; bl |= blank(i) != 0; }
        MC_CHECKC(FAIL, any, "%s: a failed assignment to alternative %d left alternative %d value %d, though no bounded type is nothrow default-constructible", name, pre.which, post.which, post.val);
        MC_CHECKC(FAIL, fall(post.which) && post.val == 0, "%s: a failed assignment left alternative %d value %d, which is not the default value of a nothrow default-constructible type", name, post.which, post.val);
        MC_CHECKC(FAIL, !bl || blank(post.which), "%s: a failed assignment left alternative %d although boost::blank is bounded", name, post.which);
    }
    static void all(Suite& s, const char* name) {
        for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int way = 0; way < NWAYS; ++way) s.run(std::string(name) + "/" + std::to_string(i) + "<-" + std::to_string(j) + "/" + ways[way], [&] {
            for (int k = 1; k <= 8; ++k) {
                alive = boom = 0; bool threw;
                { std::unique_ptr<V> v(make(i, 3)); Slot pre = read(*v, "construction"); threw = assign(*v, j, 4, way, k); ++s.calls; Slot post = read(*v, "first assignment"); relation(pre, post, j, 4, threw, name);
                  s.state(std::string(name) + std::to_string(post.which)); s.outcomes.insert(std::string(name) + std::to_string(i) + std::to_string(j) + std::to_string(post.which) + (threw ? "!" : ""));
                  V copy(*v); Slot c = read(copy, "copy"); MC_CHECKC(FAIL, c == post, "a copy of what a failed assignment left differs"); }
                MC_CHECKC(FAIL, !alive, "%s: %d objects left", name, alive);
                if (!threw) break;
                for (int j2 = 0; j2 < N; ++j2) for (int k2 = 1; k2 <= 8; ++k2) {
                    bool again;
                    { std::unique_ptr<V> v(make(i, 3)); assign(*v, j, 4, way, k); Slot pre = read(*v, "first assignment"); again = assign(*v, j2, 5, (way + k2) % NWAYS, k2); ++s.calls; Slot post = read(*v, "second assignment"); relation(pre, post, j2, 5, again, name);
                      for (int w = 0; w < NWAYS; ++w) { bool t = assign(*v, (j2 + w) % N, 6, w, 0); Slot q = read(*v, "assignment after failures"); Slot want = { (j2 + w) % N, blank((j2 + w) % N) ? 0 : 6 }; MC_CHECKC(FAIL, !t && q == want, "%s: assignment after failures", name); } }
                    MC_CHECKC(FAIL, !alive, "%s: %d objects left after a second failure", name, alive);
                    if (!again) break;
                }
            }
        });
    }
};
#define RUN(NAME, ...) Run<boost::variant<__VA_ARGS__ >, __VA_ARGS__ >::all(s, NAME);
int main(int argc, char** argv) {
    run_matrix("fallback", argc, argv, [](Suite& s) {
        MC_LISTS
    });
    return 0;
}
