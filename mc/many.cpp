// Any number of bounded types (C17): for a list of MC_N types given as MC_SEQ, every alternative and every
// ordered pair of alternatives through every operation.
#define MC_MAIN
#ifdef MC_LIMIT
#define BOOST_MPL_CFG_NO_PREPROCESSED_HEADERS
#define BOOST_MPL_LIMIT_LIST_SIZE MC_LIMIT
#define BOOST_MPL_LIMIT_VECTOR_SIZE MC_LIMIT
#endif
#include "matrix.hpp"
#include <boost/functional/hash.hpp>
#include <boost/variant/multivisitors.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/deque.hpp>
#include <boost/mpl/joint_view.hpp>
#include <boost/mpl/transform_view.hpp>
#include <boost/mpl/iterator_range.hpp>
#include <boost/mpl/push_front.hpp>
#include <boost/mpl/set.hpp>
using namespace mc;
#ifndef MC_N
#define MC_N 5
#endif
#ifndef MC_SEQ
#define MC_SEQ 0
#endif
#ifndef MC_UNIT
#define MC_UNIT "many"
#endif

static int alive, boom;     // objects alive; copy number boom throws
struct Bang {};
inline void tick() { if (boom && --boom == 0) throw Bang(); }
template <int I> struct E {
    int v; char pad[1 + I % 3];
    explicit E(int x) : v(x) { ++alive; }
    E(const E& o) noexcept(false) : v(o.v) { tick(); ++alive; }
    E& operator=(const E& o) noexcept(false) { tick(); v = o.v; return *this; }
    ~E() { --alive; v = -5; }
    friend bool operator==(const E& a, const E& b) { return a.v == b.v; }
    friend bool operator<(const E& a, const E& b) { return a.v < b.v; }
    friend std::size_t hash_value(const E& a) { return std::size_t(a.v); }
    friend std::ostream& operator<<(std::ostream& o, const E& a) { return o << I << ":" << a.v; }
};
template <int I> struct Tg { enum { value = I }; };
struct ToE { template <class T> struct apply { typedef E<T::value> type; }; };

// index sequence
template <int... I> struct Is {};
template <int N, int... I> struct Mk : Mk<N - 1, N - 1, I...> {};
template <int... I> struct Mk<0, I...> { typedef Is<I...> type; };
template <int B, class S> struct Shift; template <int B, int... I> struct Shift<B, Is<I...> > { typedef Is<(I + B)...> type; };
// a list of any length, as boost::mpl::push_front builds it
template <class S> struct Pushed; template <> struct Pushed<Is<> > { typedef boost::mpl::list0<> type; };
template <int I, int... R> struct Pushed<Is<I, R...> > { typedef typename boost::mpl::push_front<typename Pushed<Is<R...> >::type, E<I> >::type type; };
template <class S> struct PushedTag; template <> struct PushedTag<Is<> > { typedef boost::mpl::list0<> type; };
template <int I, int... R> struct PushedTag<Is<I, R...> > { typedef typename boost::mpl::push_front<typename PushedTag<Is<R...> >::type, Tg<I> >::type type; };

template <class S> struct Build;
template <int... I> struct Build<Is<I...> > {
    typedef Is<I...> S; enum { N = sizeof...(I), H = N / 2 };
    typedef typename Mk<H>::type Lo; typedef typename Shift<H, typename Mk<N - H>::type>::type Hi;
#if MC_SEQ == 0
    typedef boost::variant<E<I>...> type;
#elif MC_SEQ == 1
    typedef typename boost::make_variant_over<typename Pushed<S>::type>::type type;
#elif MC_SEQ == 2
    typedef typename boost::make_variant_over<boost::mpl::vector<E<I>...> >::type type;
#elif MC_SEQ == 3
    typedef typename boost::make_variant_over<boost::mpl::joint_view<typename Pushed<Lo>::type, typename Pushed<Hi>::type> >::type type;
#elif MC_SEQ == 4
    typedef typename boost::make_variant_over<boost::mpl::transform_view<typename PushedTag<S>::type, ToE> >::type type;
#elif MC_SEQ == 5
    typedef typename boost::make_variant_over<boost::mpl::list<E<I>...> >::type type;
#elif MC_SEQ == 6
    typedef typename boost::make_variant_over<boost::mpl::deque<E<I>...> >::type type;
#elif MC_SEQ == 7
    typedef boost::mpl::list<E<100>, E<I>...> Longer;
    typedef typename boost::make_variant_over<boost::mpl::iterator_range<typename boost::mpl::next<typename boost::mpl::begin<Longer>::type>::type, typename boost::mpl::end<Longer>::type> >::type type;
#endif
};
typedef Build<Mk<MC_N>::type> BD;
typedef BD::type V;

template <class T> struct IdOf; template <int I> struct IdOf<E<I> > { enum { value = I }; };
struct Idx : boost::static_visitor<int> { template <class T> int operator()(const T& t) const { return IdOf<T>::value * 1000 + t.v; } };
struct IdxM : boost::static_visitor<int> { template <class T> int operator()(T& t) { t.v += 1; return IdOf<T>::value * 1000 + t.v; } };
struct Pair : boost::static_visitor<int> { template <class A, class B> int operator()(const A& a, const B& b) const { return (IdOf<A>::value * 100 + a.v) * 10000 + IdOf<B>::value * 100 + b.v; } };
struct Over : boost::static_visitor<int> { int operator()(const E<0>&) const { return 1; } template <int K> int operator()(const E<K>&) const { return K + 1; } };
template <class S> struct Tab;
template <int... I> struct Tab<Is<I...> > {
    typedef V* (*Make)(int); typedef const void* (*Get)(V&); typedef void (*Set)(V&, int);
    template <int K> static V* mk(int v) { const E<K> e(v); return new V(e); }
    template <int K> static V* mkr(int v) { return new V(E<K>(v)); }
    template <int K> static void set(V& x, int v) { const E<K> e(v); V& r = (x = e); MC_CHECK(&r == &x, "assignment does not return its left operand"); }
    template <int K> static void setr(V& x, int v) { x = E<K>(v); }
    template <int K> static const void* gt(V& x) {
#if MC_N > 12
        return boost::get<E<K> >(&x);
#else
        const V& c = x; E<K>* p = boost::get<E<K> >(&x); const E<K>* q = boost::strict_get<E<K> >(&c); MC_CHECK(p == q, "get and strict_get disagree on alternative %d", K);
        bool threw = false; try { MC_CHECK(&boost::get<E<K> >(c) == p, "get by reference"); } catch (const boost::bad_get&) { threw = true; } MC_CHECK(threw == !p, "bad_get for alternative %d", K);
        return p;
#endif
    }
    static V* make(int i, int v) { static const Make t[] = { &mk<I>... }; return t[i](v); }
    static V* maker(int i, int v) { static const Make t[] = { &mkr<I>... }; return t[i](v); }
    static void assign(int i, V& x, int v) { static const Set t[] = { &set<I>... }; t[i](x, v); }
    static void assignr(int i, V& x, int v) { static const Set t[] = { &setr<I>... }; t[i](x, v); }
    static const void* get(int i, V& x) { static const Get t[] = { &gt<I>... }; return t[i](x); }
};
typedef Tab<Mk<MC_N>::type> T;
typedef std::unique_ptr<V> Up;

void holds(V& v, int i, int val, const char* what) {
    Idx id; const V& c = v;
    MC_CHECK(v.which() == i, "%s: which() is %d instead of %d", what, v.which(), i);
    int r = boost::apply_visitor(id, c); MC_CHECK(r == i * 1000 + val, "%s: visitation saw alternative %d value %d instead of %d value %d", what, r / 1000, r % 1000, i, val);
}
void one(Suite& s, int i) {
    s.run("alternative " + std::to_string(i), [&] {
        alive = 0; boom = 0;
        {
            Up a(T::make(i, 1)), b(T::maker(i, 2)); s.state(std::to_string(i)); holds(*a, i, 1, "construction"); holds(*b, i, 2, "construction from an rvalue");
            for (int j = 0; j < MC_N; ++j) MC_CHECK((T::get(j, *a) != 0) == (i == j), "get<%d> of alternative %d", j, i);
            IdxM m; int r = boost::apply_visitor(m, *a); MC_CHECK(r == i * 1000 + 2, "mutable visitation gave %d", r); holds(*a, i, 2, "mutable visitation");
            V c(*a); holds(c, i, 2, "copy"); V d(std::move(c)); holds(d, i, 2, "move"); V e(const_cast<const V&>(d)); holds(e, i, 2, "copy of const");
            std::ostringstream o; o << *a; MC_CHECK(o.str() == std::to_string(i) + ":2", "streamed as %s", o.str().c_str());
            Over pv;
            MC_CHECK(boost::apply_visitor(pv, *a) == i + 1, "overloaded visitor"); MC_CHECK(a->apply_visitor(pv) == i + 1, "member visitation");
#ifndef BOOST_NO_RTTI
            std::string tn = a->type().name(); MC_CHECK(tn == d.type().name(), "type()"); s.outcomes.insert(tn);
#endif
            s.calls += 12 + MC_N;
        }
        MC_CHECKC(LIFE, alive == 0, "%d objects were not destroyed", alive);
    });
}
void pair(Suite& s, int i, int j) {
    s.run("pair " + std::to_string(i) + "," + std::to_string(j), [&] {
        alive = 0; boom = 0;
        {
            Up a(T::make(i, 1)), b(T::make(j, 2)); const V& ca = *a; const V& cb = *b;
            MC_CHECK((ca == cb) == false && (ca != cb), "== of %d and %d", i, j); MC_CHECK((ca < cb) == (i <= j), "< of %d and %d", i, j); MC_CHECK((cb < ca) == (j < i), "< of %d and %d", j, i); MC_CHECK((ca > cb) == (j < i) && (ca <= cb) == (i <= j) && (ca >= cb) == (j < i), "> <= >=");
            int r = i * 100 + j;
#if MC_N <= 12
            Pair p; r = boost::apply_visitor(p, ca, cb); MC_CHECK(r == (i * 100 + 1) * 10000 + j * 100 + 2, "binary visitation gave %d", r);
#endif
            Up e(T::make(j, 1)); MC_CHECK((hash_value(ca) == hash_value(*e)) == (i == j), "hashes of %d and %d", i, j); MC_CHECK((ca == *e) == (i == j), "== of %d and %d", i, j);
            T::assign(j, *a, 7); holds(*a, j, 7, "assignment"); T::assignr(i, *a, 8); holds(*a, i, 8, "assignment of an rvalue");
            *a = cb; holds(*a, j, 2, "copy assignment"); holds(*b, j, 2, "source of a copy"); T::assign(i, *a, 3); V m(*a); *a = std::move(*b); holds(*a, j, 2, "move assignment"); *b = m; holds(*b, i, 3, "copy assignment");
            a->swap(*b); holds(*a, i, 3, "swap"); holds(*b, j, 2, "swap"); swap(*a, *b); holds(*a, j, 2, "free swap"); holds(*b, i, 3, "free swap"); swap(*a, *b);
            // a failure at every copy of an assignment, then a recovery
            for (int k = 1; k <= 4; ++k) {
                bool threw = false; boom = k; try { *a = cb; } catch (const Bang&) { threw = true; } boom = 0;
                if (!threw) { holds(*a, j, 2, "assignment"); break; }
                holds(*a, i, 3, "failed assignment"); holds(*b, j, 2, "source of a failed assignment"); ++s.calls;
                V c(*a); holds(c, i, 3, "copy after a failure"); V d(*b); d = ca; holds(d, i, 3, "assignment from a variant that failed"); c.swap(d);
                for (int t = 0; t < MC_N; t += (MC_N > 8 ? MC_N - 1 : 1)) MC_CHECK((T::get(t, *a) != 0) == (t == i), "get<%d> after a failure", t);
                T::assign(j, *a, 9); holds(*a, j, 9, "assignment after a failure"); T::assign(i, *a, 3); holds(*a, i, 3, "assignment after a failure");
            }
            s.calls += 20; s.state(std::to_string(i) + "," + std::to_string(j)); s.outcomes.insert(std::to_string(r));
        }
        MC_CHECKC(LIFE, alive == 0, "%d objects were not destroyed", alive);
    });
}
int main(int argc, char** argv) {
    run_matrix(MC_UNIT, argc, argv, [](Suite& s) {
        for (int i = 0; i < MC_N; ++i) one(s, i);
        for (int i = 0; i < MC_N; ++i) for (int j = 0; j < MC_N; ++j) pair(s, i, j);
    });
    return 0;
}
