// Converting construction and assignment (C13): every (variant type, argument type, argument form, previous
// alternative), against a plain overload set that takes each bounded type.
#define MC_MAIN
#include "matrix.hpp"
#include <memory>
#include <functional>
using namespace mc;
#ifndef MC_PART
#define MC_PART 0
#endif

// ---- the oracle: overload resolution among functions taking each bounded type --------------------------
template <int I, class... T> struct Ov;
template <int I> struct Ov<I> { static void f(); };
template <int I, class T, class... R> struct Ov<I, T, R...> : Ov<I + 1, R...> {
    using Ov<I + 1, R...>::f;
    static std::integral_constant<int, I> f(const T&);
    static std::integral_constant<int, I> f(T&&);
};
template <class A, class O> struct Pick {
    template <class X, class P> static decltype(P::f(std::declval<X>())) test(int);
    template <class X, class P> static std::integral_constant<int, -1> test(...);
    enum { value = decltype(test<A, O>(0))::value };
};
template <class T> struct Unwrap { typedef T type; };
template <class T> struct Unwrap<boost::recursive_wrapper<T> > { typedef T type; };
template <int I, class... T> struct At;
template <int I, class T, class... R> struct At<I, T, R...> : At<I - 1, R...> {};
template <class T, class... R> struct At<0, T, R...> { typedef T type; };
template <class A, class... T> struct Any;
template <class A> struct Any<A> { enum { value = 0 }; };
template <class A, class T, class... R> struct Any<A, T, R...> { enum { value = std::is_constructible<T, A>::value || std::is_constructible<T, typename std::add_lvalue_reference<A>::type>::value || Any<A, R...>::value }; };

// recursive_wrapper alternatives make a variant constructible only from their own type (T may be incomplete)
template <class A, class... B> struct Avail;
template <class A> struct Avail<A> { enum { value = 0 }; };
template <class A, class T, class... R> struct Avail<A, T, R...> { enum { value = std::is_constructible<T, A>::value || Avail<A, R...>::value }; };
template <class A, class T, class... R> struct Avail<A, boost::recursive_wrapper<T>, R...> { enum { value = std::is_same<typename std::decay<A>::type, T>::value || Avail<A, R...>::value }; };

// ---- types ---------------------------------------------------------------------------------------------------
enum Enum { E0, E1 = 5 };
enum class Scoped { S0, S1 = 6 };
struct BaseC { int b; BaseC(double) = delete; explicit BaseC(char, int v) : b(v) {} bool operator==(const BaseC& o) const { return b == o.b; } };
struct DerivedC : BaseC { DerivedC(char c, int v) : BaseC(c, v) {} };
struct ToInt { int v; operator int() const { return v; } };
struct ToIntNC { int v; operator int() { return v; } };
struct ToBoth { int v; operator std::string() const { return "const"; } operator int() { return v; } };
struct ToRef { int v; operator int() && { return v; } operator std::string() const & { return "lvalue"; } };
struct ExplicitToInt { explicit operator int() const { return 3; } };
struct FromInt { int v; FromInt(int i) : v(i) {} bool operator==(const FromInt& o) const { return v == o.v; } };
struct FromStr { std::string s; FromStr(const char* p) : s(p ? p : "") {} FromStr(const std::string& p) : s(p) {} bool operator==(const FromStr& o) const { return s == o.s; } };
struct OnlyExplicit { int v; explicit OnlyExplicit(int i) : v(i) {} bool operator==(const OnlyExplicit& o) const { return v == o.v; } };
struct Greedy { int how; template <class T, class = typename std::enable_if<!std::is_base_of<Greedy, T>::value>::type> Greedy(const T&) : how(1) {} bool operator==(const Greedy& o) const { return how == o.how; } };
struct Nothing {};
static int obj; static DerivedC dobj('d', 4);

template <class T> struct Id { typedef T type; };
template <class A> struct Arg;                       // a value, and whether an lvalue argument still is what it was
#define ARG(T, NAME, MAKE, SAME) template <> struct Arg<T> { static const char* name() { return NAME; } static Id<T>::type make() { return MAKE; } static bool same(const Id<T>::type& a) { return SAME; } };
#define VAL(T, NAME, X) ARG(T, NAME, Id<T>::type(X), a == Id<T>::type(X))
VAL(bool, "bool", true) VAL(char, "char", 'c') VAL(signed char, "signed char", -3) VAL(unsigned char, "unsigned char", 200) VAL(short, "short", -300) VAL(unsigned short, "unsigned short", 60000) VAL(int, "int", -70000) VAL(unsigned, "unsigned", 4000000000u)
VAL(long, "long", -5000000000L) VAL(unsigned long, "unsigned long", 10000000000000000000ul) VAL(long long, "long long", -6) VAL(float, "float", 1.5f) VAL(double, "double", 2.25) VAL(long double, "long double", 3.5L) VAL(wchar_t, "wchar_t", L'w')
VAL(std::string, "string", "a string that is long enough to be on the heap") VAL(std::nullptr_t, "nullptr", nullptr) VAL(Enum, "enum", E1) VAL(Scoped, "enum class", Scoped::S1)
ARG(const char*, "const char*", "lit", std::string(a) == "lit") ARG(char*, "char*", (char*)"lit", std::string(a) == "lit") ARG(int*, "int*", &obj, a == &obj) ARG(const int*, "const int*", &obj, a == &obj) ARG(void*, "void*", &obj, a == &obj)
ARG(BaseC, "BaseC", BaseC('b', 2), a.b == 2) ARG(DerivedC, "DerivedC", DerivedC('d', 3), a.b == 3) ARG(DerivedC*, "DerivedC*", &dobj, a == &dobj)
ARG(ToInt, "ToInt", (ToInt{ 9 }), a.v == 9) ARG(ToIntNC, "ToIntNC", (ToIntNC{ 9 }), a.v == 9) ARG(ToBoth, "ToBoth", (ToBoth{ 9 }), a.v == 9) ARG(ToRef, "ToRef", (ToRef{ 9 }), a.v == 9) ARG(ExplicitToInt, "ExplicitToInt", ExplicitToInt(), true)
ARG(FromInt, "FromInt", FromInt(4), a.v == 4) ARG(FromStr, "FromStr", FromStr("from"), a.s == "from") ARG(OnlyExplicit, "OnlyExplicit", OnlyExplicit(4), a.v == 4) ARG(Greedy, "Greedy", Greedy(3), a.how == 1) ARG(Nothing, "Nothing", Nothing(), true)
ARG(TT<0>, "TT<0>", TT<0>(3), a.val == 3) ARG(NN<1>, "NN<1>", NN<1>(3), a.val == 3) ARG(MO<2>, "MO<2>", MO<2>(3), a.val == 3)
ARG(std::shared_ptr<DerivedC>, "shared_ptr<DerivedC>", std::make_shared<DerivedC>('s', 7), a && a->b == 7) ARG(std::shared_ptr<BaseC>, "shared_ptr<BaseC>", std::make_shared<BaseC>('s', 7), a && a->b == 7)
typedef std::pair<short, short> PS; typedef std::pair<int, int> PI;
ARG(PI, "pair<int,int>", PI(1, 2), a == PI(1, 2)) ARG(PS, "pair<short,short>", PS(1, 2), a == PS(1, 2)) ARG(std::vector<int>, "vector<int>", std::vector<int>(3, 4), a == std::vector<int>(3, 4))
typedef int (*Fn)(int); int fn(int x) { return x; }
ARG(Fn, "function pointer", &fn, a == &fn)

template <class T> bool eq(const T& a, const T& b) { return a == b; }
inline bool eq(const std::shared_ptr<BaseC>& a, const std::shared_ptr<BaseC>& b) { return a && b && a->b == b->b; }

template <class V, class... B> struct Conv {
    typedef Ov<0, typename Unwrap<B>::type...> O;
    enum { N = sizeof...(B) };
    template <int I> struct T { typedef typename At<I, typename Unwrap<B>::type...>::type type; };

    // a variant that holds alternative I, made without a conversion under test
    typedef V* (*Maker)();
    template <class X> static V* mk() { return new V(Arg<X>::make()); }
    static V* prior(int i) { static const Maker m[] = { &mk<typename Unwrap<B>::type>... }; return m[i](); }

    template <class X> static bool holds(const V& v, int idx, const X& want, Suite& s, const std::string& what) {
        MC_CHECK(v.which() == idx, "%s: alternative %d was chosen, overload resolution chooses %d", what.c_str(), v.which(), idx);
        const X* p = boost::relaxed_get<X>(&v);
        MC_CHECK(p && eq(*p, want), "%s: the held value is not the converted one", what.c_str());
        s.outcomes.insert(what + ":" + std::to_string(v.which()));
        return true;
    }
    // copy or move expected by value category
    template <class A, class Fwd, int I, class F> static void value_case(Suite& s, const std::string& what, F make, std::true_type) {
        typedef typename T<I>::type X;
        A a1(Arg<A>::make()), a2(Arg<A>::make());
        X want = std::forward<Fwd>(a2);                  // implicit conversion
        ++s.calls;
        make(std::forward<Fwd>(a1), [&](const V& v) { holds<X>(v, I, want, s, what); });
        if (std::is_lvalue_reference<Fwd>::value) MC_CHECK(Arg<A>::same(a1), "%s: the argument was changed", what.c_str());
    }
    template <class A, class Fwd, int I, class F> static void value_case(Suite&, const std::string&, F, std::false_type) {}

    template <class A, class Fwd> static void construct(Suite& s, const char* form, std::true_type) {
        const int I = Pick<Fwd, O>::value;
        static_assert(std::is_constructible<V, Fwd>::value, "a conversion exists, but the variant is not constructible");
        static_assert(std::is_convertible<Fwd, V>::value, "a conversion exists, but the variant is not convertible");
        s.run(id<A>(form) + "/construct", [&] {
            value_case<A, Fwd, I>(s, id<A>(form), [](Fwd a, std::function<void(const V&)> k) { V v(std::forward<Fwd>(a)); k(v); }, std::true_type());
            value_case<A, Fwd, I>(s, id<A>(form), [](Fwd a, std::function<void(const V&)> k) { V v = std::forward<Fwd>(a); k(v); }, std::true_type());
        });
    }
    template <class A, class Fwd> static void construct(Suite&, const char*, std::false_type) {
        // nothing to construct from at all: the traits must say so
        static_assert(Any<Fwd, typename Unwrap<B>::type...>::value || !std::is_constructible<V, Fwd>::value, "constructible although no alternative is");
        static_assert(Any<Fwd, typename Unwrap<B>::type...>::value || !std::is_assignable<V&, Fwd>::value, "assignable although no alternative is constructible");
    }
    template <class A, class Fwd, class As> static void assign(Suite& s, const char* form, std::true_type) {
        const int I = Pick<As, O>::value;
        static_assert(std::is_assignable<V&, Fwd>::value, "a conversion exists, but the variant is not assignable");
        for (int i = 0; i < N; ++i) s.run(id<A>(form) + "/assign over " + std::to_string(i), [&] {
            std::unique_ptr<V> p(prior(i)), q(prior((i + 1) % N));
            s.state(std::to_string(i));
            value_case<A, As, I>(s, id<A>(form), [&](As a, std::function<void(const V&)> k) { V& r = (*p = std::forward<Fwd>(const_cast<A&>(a))); MC_CHECK(&r == p.get(), "assignment does not return its left operand"); k(*p); }, std::true_type());
        });
    }
    template <class A, class Fwd, class As> static void assign(Suite&, const char*, std::false_type) {}
    template <class A> static std::string id(const char* form) { return std::string(name()) + " <- " + form + " " + Arg<A>::name(); }
    static std::string& name() { static std::string n; return n; }

    template <class A> static void arg(Suite& s) { arg1<A>(s, std::is_copy_constructible<A>()); }
    template <class A> static void arg1(Suite& s, std::false_type) {
        construct<A, A&&>(s, "rvalue", ok<A&&>()); assign<A, A&&, A&&>(s, "rvalue", ok<A&&>());
    }
    template <class A> static void arg1(Suite& s, std::true_type) {
        construct<A, A&>(s, "lvalue", ok<A&>());
        construct<A, const A&>(s, "const lvalue", ok<const A&>());
        construct<A, A&&>(s, "rvalue", ok<A&&>());
        assign<A, A&&, A&&>(s, "rvalue", ok<A&&>());
        assign<A, const A&, const A&>(s, "const lvalue", ok<const A&>());
        assign<A, A&, const A&>(s, "lvalue", std::integral_constant<bool, ok<const A&>::value && ok<A&>::value>());   // taken as const
    }
    template <class Fwd> struct ok : std::integral_constant<bool, (Pick<Fwd, O>::value >= 0 && Avail<Fwd, B...>::value)> {};

    static void all(Suite& s, const char* n) {
        name() = n;
#define A1(T) arg<T>(s);
        A1(bool) A1(char) A1(signed char) A1(unsigned char) A1(short) A1(unsigned short) A1(int) A1(unsigned) A1(long) A1(unsigned long) A1(long long) A1(float) A1(double) A1(long double) A1(wchar_t)
        A1(std::string) A1(Enum) A1(Scoped) A1(const char*) A1(char*) A1(int*) A1(const int*) A1(void*) A1(BaseC) A1(DerivedC) A1(DerivedC*)
        A1(ToInt) A1(ToIntNC) A1(ToBoth) A1(ToRef) A1(ExplicitToInt) A1(FromInt) A1(FromStr) A1(OnlyExplicit) A1(Nothing) A1(TT<0>) A1(NN<1>) A1(MO<2>)
        A1(std::shared_ptr<DerivedC>) A1(std::shared_ptr<BaseC>) A1(PS) A1(std::vector<int>) A1(Fn)
#if MC_PART == 4 || MC_PART == 6
        A1(std::nullptr_t)
#endif
        // string literals: arrays
        literal(s, ok<const char(&)[4]>());
    }
    static void literal(Suite&, std::false_type) {}
    static void literal(Suite& s, std::true_type) {
        const int I = Pick<const char(&)[4], O>::value;
        typedef typename T<I>::type X;
        s.run(std::string(n()) + " <- literal", [&] { X want = "abc"; V v("abc"); holds<X>(v, I, want, s, "literal"); std::unique_ptr<V> p(prior(0)), q(prior(N - 1)); *p = "abc"; *q = "abc"; holds<X>(*p, I, want, s, "literal"); holds<X>(*q, I, want, s, "literal"); s.calls += 3; });
    }
    static std::string n() { return name(); }
};
#define RUN(...) { typedef boost::variant<__VA_ARGS__> V; Conv<V, __VA_ARGS__>::all(s, #__VA_ARGS__); }
#include <functional>
int main(int argc, char** argv) {
    run_matrix("conv", argc, argv, [](Suite& s) {
#if MC_PART == 0
        RUN(int, std::string, double)
#elif MC_PART == 1
        RUN(bool, std::string)
        RUN(const char*, bool, FromStr)
#elif MC_PART == 2
        RUN(char, unsigned char, short, long)
        RUN(float, long long, unsigned)
#elif MC_PART == 3
        RUN(BaseC, DerivedC, void*)
        RUN(FromInt, FromStr, OnlyExplicit)
#elif MC_PART == 4
        RUN(boost::recursive_wrapper<FromInt>, int*, const int*)
        RUN(PI, std::vector<int>, unsigned long)
#elif MC_PART == 5
        RUN(TT<0>, NN<1>, MO<2>)
        RUN(std::shared_ptr<BaseC>, int)
#elif MC_PART == 6
        RUN(std::nullptr_t, Fn, boost::recursive_wrapper<FromInt>)
        RUN(BaseC, boost::recursive_wrapper<std::string>, int)
#elif MC_PART == 7
        RUN(Enum, Scoped, int)
        RUN(double, boost::recursive_wrapper<int>, boost::recursive_wrapper<TT<0> >, char)
#elif MC_PART == 8
        RUN(Greedy, int, std::string)
        RUN(Greedy, TT<0>)
#else
        MC_LISTS
#endif
    });
    return 0;
}
