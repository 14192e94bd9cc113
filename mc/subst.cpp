// make_recursive_variant (C16): every type term up to a depth, against an independent substitution.
#define MC_MAIN
#define BOOST_MPL_CFG_NO_PREPROCESSED_HEADERS
#define BOOST_MPL_LIMIT_LIST_SIZE 30
#include "matrix.hpp"
#include <boost/variant/recursive_variant.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/at.hpp>
#include <boost/mpl/size.hpp>
#include <boost/mpl/equal.hpp>
#include <cxxabi.h>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <vector>
using namespace mc;
#ifndef MC_PART
#define MC_PART 0
#endif
#ifndef MC_PARTS
#define MC_PARTS 8
#endif
typedef boost::recursive_variant_ X;
struct Cls {};
template <class A> struct F1 {};
template <class A, class B> struct F2 {};
template <class... A> struct FV {};

// ---- the oracle ----------------------------------------------------------------------------------------
template <class T, class V> struct Sub { typedef T type; };
template <class V> struct Sub<X, V> { typedef V type; };
template <class T, class V> struct Sub<const T, V> { typedef const typename Sub<T, V>::type type; };
template <class T, class V> struct Sub<volatile T, V> { typedef volatile typename Sub<T, V>::type type; };
template <class T, class V> struct Sub<const volatile T, V> { typedef const volatile typename Sub<T, V>::type type; };
template <class T, class V> struct Sub<T*, V> { typedef typename Sub<T, V>::type* type; };
template <class T, class V> struct Sub<T&, V> { typedef typename Sub<T, V>::type& type; };
template <class R, class... A, class V> struct Sub<R (*)(A...), V> { typedef typename Sub<R, V>::type (*type)(typename Sub<A, V>::type...); };
template <class A, class V> struct Sub<F1<A>, V> { typedef F1<typename Sub<A, V>::type> type; };
template <class A, class B, class V> struct Sub<F2<A, B>, V> { typedef F2<typename Sub<A, V>::type, typename Sub<B, V>::type> type; };
template <class... A, class V> struct Sub<FV<A...>, V> { typedef FV<typename Sub<A, V>::type...> type; };
template <class... A, class V> struct Sub<boost::variant<A...>, V> { typedef boost::variant<typename Sub<A, V>::type...> type; };

// ---- terms -----------------------------------------------------------------------------------------------
template <class... T> struct L { enum { size = sizeof...(T) }; };
template <class A, class B> struct Concat; template <class... A, class... B> struct Concat<L<A...>, L<B...> > { typedef L<A..., B...> type; };
template <class... Ls> struct Join { typedef L<> type; };
template <class A, class... R> struct Join<A, R...> { typedef typename Concat<A, typename Join<R...>::type>::type type; };
// the terms made from one term: pointers and references only to what can be pointed to
template <class T, bool R = std::is_reference<T>::value> struct Un { typedef L<F1<T>, T (*)(), int (*)(T), FV<T> > type; };
template <class T> struct Un<T, false> { typedef L<T*, T* const, T&, F1<T>, const F1<T>, T (*)(), int (*)(T), FV<T, T> > type; };
template <class T> struct Un<const T, false> { typedef L<const T*, const T&, F1<const T>, const T* volatile> type; };
template <class A, class B> struct Bi { typedef L<F2<A, B>, A (*)(B), void (*)(A, B), FV<A, int, B> > type; };
template <class S> struct Uns; template <class... T> struct Uns<L<T...> > { typedef typename Join<typename Un<T>::type...>::type type; };
template <class S, class U> struct Bis; template <class... T, class U> struct Bis<L<T...>, U> {
    template <class A, class UU> struct R1; template <class A, class... B> struct R1<A, L<B...> > { typedef typename Join<typename Bi<A, B>::type...>::type type; };
    typedef typename Join<typename R1<T, U>::type...>::type type; };
typedef L<X, const X, int, Cls*> D0;
typedef Join<Uns<D0>::type, Bis<L<X, int, const X>, L<X, int, const X> >::type>::type D1;
typedef Uns<D1>::type D2a;                                          // one constructor around depth 1
// longer argument lists and the remaining qualifiers
typedef L<F1<volatile X>, volatile X*, volatile F1<X>, const volatile F1<X>, X* volatile, X* const volatile, const volatile X*, F1<const volatile X>,
    X (*)(X, X, X), int (*)(int, X, int, X), void (*)(int, int, int, int, X), FV<int, int, X, X>, FV<X, int, Cls*, X, int, X>, FV<>, FV<F1<X>, F2<int, X>, FV<X, X, X> >, F1<X (*)(int, int, X)>,
    X** const*, F1<X>* const, const F1<X>&, F2<F1<F1<X> >, F1<int> >, F1<F1<F1<F1<X> > > >, X (**)(X), F1<X>& (*)(F1<X>&, X*), void (*)() > DX;
typedef Bis<D1, L<X, int> >::type D2b; typedef Bis<L<X, int>, D1>::type D2c;

std::string demangle(const char* n) { int st; char* d = abi::__cxa_demangle(n, 0, 0, &st); std::string r = d ? d : n; free(d); return r; }
template <class T> std::string tn() { return demangle(typeid(F1<T>).name()); }

// eight terms per variant; MC_PART takes every MC_PARTS-th group
template <class V, int I, class... T> struct Walk { static void go(Suite&, const char*) {} };
template <class V, int I, class T, class... R> struct Walk<V, I, T, R...> {
    static void go(Suite& s, const char* how) {
        typedef typename boost::mpl::at_c<typename V::types, I>::type Got; typedef typename Sub<T, V>::type Want;
        bool same = std::is_same<Got, Want>::value;
        s.run(std::string(how) + tn<T>(), [&] { ++s.calls; s.state(tn<T>()); MC_CHECK(same, "%s became %s", tn<T>().c_str(), tn<Got>().substr(0, 300).c_str()); s.outcomes.insert(tn<T>()); });
        Walk<V, I + 1, R...>::go(s, how);
    }
};
template <class... T> void group(Suite& s) {
    { typedef typename boost::make_recursive_variant<int, T...>::type V; Walk<V, 0, int, T...>::go(s, ""); }
    { typedef typename boost::make_recursive_variant<T..., int>::type V; Walk<V, 0, T..., int>::go(s, "first: "); }
#if MC_OVER
    { typedef typename boost::make_recursive_variant_over<boost::mpl::list<T..., int> >::type V; Walk<V, 0, T..., int>::go(s, "over: "); }
#endif
}
template <int K, class S> struct Groups { static void go(Suite&) {} };
template <int K, class A, class B, class C, class D, class E, class F, class G, class H, class... R> struct Groups<K, L<A, B, C, D, E, F, G, H, R...> > {
    static void go(Suite& s) { mine(s, std::integral_constant<bool, K % MC_PARTS == MC_PART>()); Groups<K + 1, L<R...> >::go(s); }
    static void mine(Suite& s, std::true_type) { group<A, B, C, D, E, F, G, H>(s); }
    static void mine(Suite&, std::false_type) {}
};
// pads a list to a multiple of eight
template <class S, int P = (8 - S::size % 8) % 8> struct Pad { typedef typename Pad<typename Concat<S, L<Cls> >::type, P - 1>::type type; };
template <class S> struct Pad<S, 0> { typedef S type; };

// ---- use ---------------------------------------------------------------------------------------------------
template <class V, class T> struct Sees : boost::static_visitor<bool> { const void* p; bool operator()(T& t) const { return &t == p; } template <class U> bool operator()(U&) const { return false; } };
template <class V, class T> void use(Suite& s, const char* n, int idx, const T& val) {
    s.run(std::string("use/") + n, [&] {
        V v(val); s.state(n); s.calls += 8;
        MC_CHECK(v.which() == idx, "%s: alternative %d", n, v.which());
        T* p = boost::get<T>(&v); MC_CHECK(p != 0, "%s: get", n); if (!p) return;
        Sees<V, T> se; se.p = p; MC_CHECK(boost::apply_visitor(se, v), "%s: the visitor is given another type", n);
        V w(v); MC_CHECK(w.which() == idx && boost::get<T>(&w) != p, "%s: copy", n); V x(3); x = v; MC_CHECK(x.which() == idx, "%s: assignment", n); x = 4; MC_CHECK(x.which() == 0, "%s: assignment back", n); x = val; MC_CHECK(x.which() == idx, "%s: assignment of a value", n);
        swap(x, w); V y(std::move(x)); MC_CHECK(y.which() == idx, "%s: swap, move", n);
#ifndef BOOST_NO_RTTI
        MC_CHECK(v.type() == typeid(T), "%s: type()", n);
#endif
        s.outcomes.insert(n);
    });
}
#if MC_PART == 0
template <class... T> struct MR { typedef typename boost::make_recursive_variant<int, T...>::type type; };
template <class V> V give(V v) { return v; }
template <class V> const V& giveref(const V& v) { return v; }
template <class V, class I> bool inner(F1<I>*) { typedef typename I::types T; return boost::mpl::size<T>::value == 2 && std::is_same<typename boost::mpl::at_c<T, 0>::type, int>::value && std::is_same<typename boost::mpl::at_c<T, 1>::type, F1<V> >::value; }
void uses(Suite& s) {
    { typedef MR<std::vector<X> >::type V; std::vector<V> a(3, V(5)); use<V>(s, "vector", 1, a); }
    { typedef MR<std::map<std::string, X> >::type V; std::map<std::string, V> m; m["k"] = V(2); use<V>(s, "map to", 1, m); }
    { typedef MR<std::pair<X, X> >::type V; use<V>(s, "pair", 1, std::pair<V, V>(V(1), V(2))); }
    { typedef MR<X*>::type V; V t(1); use<V>(s, "pointer", 1, (V*)&t); }
    { typedef MR<const X*>::type V; V t(1); use<V>(s, "pointer to const", 1, (const V*)&t); }
    { typedef MR<X (*)(X)>::type V; use<V>(s, "function", 1, (V (*)(V))&give<V>); }
    { typedef MR<const X& (*)(const X&)>::type V; use<V>(s, "function of references", 1, (const V& (*)(const V&))&giveref<V>); }
    { typedef MR<std::shared_ptr<X> >::type V; use<V>(s, "shared_ptr", 1, std::make_shared<V>(V(4))); }
    { typedef MR<std::vector<std::pair<int, X> > >::type V; use<V>(s, "vector of pairs", 1, std::vector<std::pair<int, V> >(2, std::pair<int, V>(1, V(1)))); }
    { typedef MR<std::list<std::deque<X> > >::type V; use<V>(s, "list of deques", 1, std::list<std::deque<V> >(2, std::deque<V>(1, V(1)))); }
    { typedef MR<std::vector<X>*>::type V; std::vector<V> a(3, V(5)); use<V>(s, "pointer to vector", 1, &a); }
    { typedef MR<const std::vector<X>*>::type V; std::vector<V> a(3, V(5)); use<V>(s, "pointer to const vector", 1, (const std::vector<V>*)&a); }
    { typedef MR<std::string, std::vector<X>, std::map<int, X> >::type V; std::map<int, V> m; m[1] = V(2); use<V>(s, "second of three", 2, std::vector<V>(1, V(1))); use<V>(s, "third of three", 3, m); use<V>(s, "unchanged", 1, std::string("s")); }
    { typedef MR<std::vector<boost::variant<int, std::vector<X> > > >::type V; std::vector<boost::variant<int, std::vector<V> > > a; a.push_back(3); a.push_back(std::vector<V>(1, V(4))); use<V>(s, "vector of variants", 1, a); }
    { typedef boost::make_recursive_variant_over<boost::mpl::vector<int, std::vector<X>, std::pair<X, std::string> > >::type V; use<V>(s, "over/vector", 1, std::vector<V>(1, V(1))); use<V>(s, "over/pair", 2, std::pair<V, std::string>(V(1), "x")); }
    { typedef MR<X>::type V; V a(1); s.run("use/itself", [&] { ++s.calls; MC_CHECK((std::is_same<boost::mpl::at_c<V::types, 1>::type, V>::value), "the placeholder itself"); }); }
    // an inner recursive variant keeps its own placeholder
    s.run("use/inner recursive", [&] {
        typedef boost::make_recursive_variant<int, std::vector<X> >::type In; typedef boost::make_recursive_variant<std::string, std::vector<In>, std::map<int, X> >::type V; ++s.calls;
        MC_CHECK((std::is_same<boost::mpl::at_c<V::types, 1>::type, std::vector<In> >::value), "an inner recursive variant was changed"); MC_CHECK((std::is_same<boost::mpl::at_c<V::types, 2>::type, std::map<int, V> >::value), "the outer placeholder");
        std::vector<In> a; a.push_back(std::vector<In>(2, In(1))); V v(a); MC_CHECK(v.which() == 1 && boost::get<std::vector<In> >(v)[0].which() == 1, "use");
        typedef boost::make_recursive_variant<int, F1<X> >::type In2; typedef boost::make_recursive_variant<int, const In2*, F1<const In2>, In2 (*)(const In2&), const F1<In2>, F1<X> >::type W;
        MC_CHECK((std::is_same<boost::mpl::at_c<W::types, 1>::type, const In2*>::value), "pointer to an inner recursive variant"); MC_CHECK((std::is_same<boost::mpl::at_c<W::types, 2>::type, F1<const In2> >::value), "const inner recursive variant as argument");
        MC_CHECK((std::is_same<boost::mpl::at_c<W::types, 3>::type, In2 (*)(const In2&)>::value), "function of an inner recursive variant"); MC_CHECK((std::is_same<boost::mpl::at_c<W::types, 4>::type, const F1<In2> >::value), "const term with an inner recursive variant"); MC_CHECK((std::is_same<boost::mpl::at_c<W::types, 5>::type, F1<W> >::value), "outer placeholder beside inner ones");
    });
    // a variant over a sequence inside: equal element by element
    s.run("use/inner over", [&] {
        typedef boost::make_variant_over<boost::mpl::list<int, F1<X> > >::type In; typedef boost::make_recursive_variant<int, F1<In> >::type V; typedef boost::mpl::at_c<V::types, 1>::type Got; ++s.calls;
        MC_CHECK((inner<V>((Got*)0)), "a variant over a sequence inside a term");
        typedef boost::make_variant_over<boost::mpl::list<int, Cls> >::type Pl; typedef boost::make_recursive_variant<int, F1<Pl>, F1<X> >::type W; MC_CHECK((std::is_same<boost::mpl::at_c<W::types, 1>::type, F1<Pl> >::value), "a variant without placeholder was changed");
    });
}
#endif

#define GO(List) Groups<0, Pad<List>::type>::go(s)
int main(int argc, char** argv) {
    run_matrix("subst", argc, argv, [](Suite& s) {
        GO(D1);
        typedef L<F1<boost::variant<int, X> >, boost::variant<int, F1<X> >*, F2<boost::variant<X, int>, X>, X (*)(X, const X*, X&, F1<X>, int, X), FV<>, FV<X, X, X, X, X, X, X>, F1<F1<F1<F1<F1<X> > > > >, X******,
            volatile X*, const volatile X*, F1<volatile X>, volatile F1<X>*, const volatile F1<X>*, X* volatile*, X* const volatile*, const F2<int, const F1<X>*>&> Extra;
        GO(Extra);
#ifdef MC_D2
        GO(D2a); GO(DX);
#endif
#ifdef MC_D2B
        GO(D2b); GO(D2c);
#endif
#if MC_PART == 0
        uses(s);
#endif
    });
    return 0;
}
