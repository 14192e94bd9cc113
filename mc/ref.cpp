// Reference alternatives (C22): list x alternative x way of making the variant x way of reaching the object.
#define MC_MAIN
#include "matrix.hpp"
#include <boost/functional/hash.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/variant/multivisitors.hpp>
using namespace mc;
#ifndef MC_PART
#define MC_PART 0
#endif
// plain objects whose address and value are watched
template <int K> struct Obj : TT<K> { explicit Obj(int v) : TT<K>(v) {} private: Obj(const Obj&); Obj& operator=(const Obj&); };   // cannot be copied at all
struct Addr : boost::static_visitor<void*> { int* calls; template <class T> void* operator()(T& t) const { ++*calls; return const_cast<void*>(static_cast<const void*>(&t)); } };
template <class T> struct Writer : boost::static_visitor<> { int v; void operator()(T& t) const { t.val = v; } template <class U> void operator()(U&) const {} };
struct Is : boost::static_visitor<int> { template <class T> int operator()(T&) const { return std::is_const<T>::value; } };
struct Two : boost::static_visitor<> { void** p; template <class A, class B> void operator()(A& a, B& b) const { p[0] = const_cast<void*>(static_cast<const void*>(&a)); p[1] = const_cast<void*>(static_cast<const void*>(&b)); } };

template <class V, class T> void reach(Suite& s, const std::string& id, V& v, T& o, int which) {
    World& w = W(); const V& c = v; int calls = 0; Addr a; a.calls = &calls; void* want = const_cast<void*>(static_cast<const void*>(&o));
    typedef typename std::remove_const<T>::type U;
    Arm arm(0, 0);
    MC_CHECK(v.which() == which, "%s: which() is %d", id.c_str(), v.which());
    MC_CHECK(boost::apply_visitor(a, v) == want, "%s: visitation reaches another object", id.c_str());
    MC_CHECK(v.apply_visitor(a) == want, "%s: visitation reaches another object", id.c_str());
    MC_CHECK(boost::apply_visitor(a, c) == want, "%s: const visitation reaches another object", id.c_str());
    MC_CHECK(c.apply_visitor(a) == want, "%s: const visitation reaches another object", id.c_str());
    MC_CHECK(calls == 4, "%s: %d calls instead of 4", id.c_str(), calls);
    MC_CHECK((void*)boost::get<T>(&v) == want, "%s: get by pointer", id.c_str());
    MC_CHECK((void*)&boost::get<T>(v) == want, "%s: get", id.c_str());
    MC_CHECK((const void*)boost::get<T>(&c) == want, "%s: get from const by pointer", id.c_str());
    MC_CHECK((const void*)&boost::get<T>(c) == want, "%s: get from const", id.c_str());
    MC_CHECK((void*)boost::relaxed_get<T>(&v) == want, "%s: relaxed_get", id.c_str());
    MC_CHECK((void*)boost::strict_get<T>(&v) == want, "%s: strict_get", id.c_str());
    MC_CHECK(boost::relaxed_get<double>(&v) == 0, "%s: relaxed_get of another type", id.c_str());
    Is is; MC_CHECK(boost::apply_visitor(is, v) == (std::is_const<T>::value ? 1 : 0), "%s: constness of the object", id.c_str());
    Two two; void* p[2] = { 0, 0 }; two.p = p; boost::apply_visitor(two, v, v); MC_CHECK(p[0] == want && p[1] == want, "%s: binary visitation", id.c_str());
#ifndef BOOST_NO_RTTI
    MC_CHECK(c.type() == typeid(U), "%s: type()", id.c_str());
#endif
    MC_CHECK(!w.copies && !w.moves && !w.allocs && !w.points, "%s: the object was copied", id.c_str());
    s.calls += 14;
}
template <class V, class T> void writes(Suite& s, const std::string& id, V& v, T& o, std::false_type) {
    o.val = 31; MC_CHECK(boost::get<T>(v).val == 31, "%s: a write to the object is not seen", id.c_str());
    boost::get<T>(v).val = 32; MC_CHECK(o.val == 32, "%s: a write through get is not seen", id.c_str());
    Writer<T> wr; wr.v = 33; boost::apply_visitor(wr, v); MC_CHECK(o.val == 33, "%s: a write through a visitor is not seen", id.c_str());
    boost::get<T>(&v)->val = 34; MC_CHECK(o.val == 34, "%s: a write through get is not seen", id.c_str());
    *&boost::relaxed_get<T>(v).val = 35; MC_CHECK(o.val == 35, "%s: a write through get is not seen", id.c_str());
    s.calls += 5;
}
template <class V, class T> void writes(Suite&, const std::string&, V&, T&, std::true_type) {}

// T: the referred-to type; how the variant came to be
enum How { DIRECT, COPY, COPYCONST, MOVE_, COPYOFCOPY, BYVALUE, NHOW };
template <class V> V pass(V v) { return v; }
template <class V, class T> void all(Suite& s, const char* name, int which, int v0) {
    for (int h = 0; h < NHOW; ++h) for (int k = 0; k < 2; ++k) {
        static const char* hn[] = { "direct", "copy", "copy of const", "move", "copy of copy", "passed and returned" };
        std::string id = std::string(name) + "/" + std::to_string(which) + "/" + hn[h] + (k ? "/after destruction of the others" : "");
        s.run(id, [&] {
            World& w = W();
            typename std::remove_const<T>::type o(v0); T& r = o;
            {
                Arm arm(0, 0);
                alignas(V) char b1[sizeof(V)], b2[sizeof(V)], b3[sizeof(V)];
                V* v1 = new (b1) V(r); V* v2 = 0; V* v3 = 0;
                switch (h) {
                case DIRECT: break;
                case COPY: v2 = new (b2) V(*v1); break;
                case COPYCONST: v2 = new (b2) V(const_cast<const V&>(*v1)); break;
                case MOVE_: v2 = new (b2) V(std::move(*v1)); break;
                case COPYOFCOPY: v3 = new (b3) V(*v1); v2 = new (b2) V(*v3); break;
                case BYVALUE: v2 = new (b2) V(pass(*v1)); break;
                }
                MC_CHECK(!w.copies && !w.moves && !w.allocs && !w.points, "%s: making the variant copied the object", id.c_str());
                V& v = v2 ? *v2 : *v1;
                if (k && v2) { v1->~V(); v1 = 0; if (v3) { v3->~V(); v3 = 0; } }
                MC_CHECKC(LIFE, w.nlive == 1, "%s: %d objects are alive", id.c_str(), w.nlive);
                reach<V, T>(s, id, v, r, which);
                writes<V, T>(s, id, v, r, std::is_const<T>());
                if (v1) reach<V, T>(s, id + "/source", *v1, r, which);
                s.state(id);
                if (v1) v1->~V(); if (v2) v2->~V(); if (v3) v3->~V();
                MC_CHECKC(LIFE, w.nlive == 1, "%s: the object was destroyed with the variant", id.c_str());
                MC_CHECK(!w.copies && !w.moves && !w.allocs, "%s: the object was copied", id.c_str());
            }
            s.outcomes.insert(id + std::to_string(o.val));
        });
    }
}
// a variant of references and one of values: conversions copy the referred-to value
template <class From, class To, class T> void convert(Suite& s, const char* name, int which) {
    s.run(std::string("convert/") + name, [&] {
        World& w = W(); T o(5);
        From f(o); To t(f); ++s.calls;
        MC_CHECK(t.which() == which && boost::get<T>(t).val == 5 && &boost::get<T>(t) != &o, "%s: the value was not copied", name);
        o.val = 6; MC_CHECK(boost::get<T>(t).val == 5 && boost::get<T>(f).val == 6, "%s: the copy follows the object", name);
        t = f; MC_CHECK(boost::get<T>(t).val == 6, "%s: assignment", name);
        To u(const_cast<const From&>(f)); MC_CHECK(boost::get<T>(u).val == 6, "%s: from const", name);
        To m((From(o))); MC_CHECK(boost::get<T>(m).which_value() == 6, "%s: from rvalue", name);
        MC_CHECK(boost::get<T>(f).val == 6 && o.val == 6, "%s: the object was moved from", name); (void)w;
        o.val = 8; t = From(o); MC_CHECK(boost::get<T>(t).val == 8 && o.val == 8, "%s: assignment of an rvalue", name); To n(std::move(f)); MC_CHECK(boost::get<T>(n).val == 8 && o.val == 8 && &boost::get<T>(f) == &o, "%s: move from a variant of references", name); s.calls += 5;
        s.state(name); s.outcomes.insert(std::string(name) + std::to_string(boost::get<T>(t).val));
    });
}
struct Val : TT<7> { explicit Val(int v) : TT<7>(v) {} int which_value() const { return val; } };
struct Derived : Val { int pad; explicit Derived(int v) : Val(v), pad(3) {} };
// conversions between variants of references and values: the alternative a plain overload set selects for the
// referred-to object, whatever the constness and category of the source variant
template <int I, class... A> struct Ov;
template <int I> struct Ov<I> { static std::integral_constant<int, -1> f(...); };
template <int I, class A, class... R> struct Ov<I, A, R...> : Ov<I + 1, R...> { using Ov<I + 1, R...>::f; static std::integral_constant<int, I> f(const A&); static std::integral_constant<int, I> f(A&&); };
template <int I, class A, class... R> struct Ov<I, A&, R...> : Ov<I + 1, R...> { using Ov<I + 1, R...>::f; static std::integral_constant<int, I> f(A&); };
struct Where : boost::static_visitor<const void*> { template <class T> const void* operator()(const T& t) const { return static_cast<const void*>(&t); } };
template <class T> struct ValueOf : boost::static_visitor<int> { int operator()(const T& t) const { return t.val; } template <class U> int operator()(const U&) const { return -5; } };
template <class T, class Src, class... D> void among(Suite& s, const char* name) {
    typedef boost::variant<Src&, double*> From; typedef boost::variant<D..., double*> To;
    const int which = decltype(Ov<0, D...>::f(std::declval<Src&>()))::value;
    bool refs[] = { std::is_reference<D>::value... };
    for (int cat = 0; cat < 4; ++cat) {
        static const char* cn[] = { "lvalue", "const", "rvalue", "copy" };
        std::string id = std::string("among/") + name + "/" + cn[cat];
        s.run(id, [&] {
            T o(5); Src& r = o; From f(r); World& w = W(); { Arm arm(0, 0); } Where at; ValueOf<T> val;
            std::unique_ptr<To> t;
            switch (cat) {
            case 0: t.reset(new To(f)); break;
            case 1: t.reset(new To(const_cast<const From&>(f))); break;
            case 2: t.reset(new To(std::move(f))); break;
            case 3: { To first(f); t.reset(new To(first)); } break;
            }
            ++s.calls; s.state(id);
            const To& c = *t;
            MC_CHECK(c.which() == which, "%s: alternative %d was chosen, overload resolution chooses %d", id.c_str(), c.which(), which);
            const void* p = boost::apply_visitor(at, c);
            MC_CHECK((p == static_cast<const void*>(&o)) == refs[which], "%s: %s", id.c_str(), refs[which] ? "refers to another object" : "the value was not copied");
            MC_CHECK(o.val == 5 && boost::apply_visitor(at, f) == static_cast<const void*>(&o), "%s: the object or the source was changed", id.c_str());
            if (!refs[which]) { MC_CHECK(boost::apply_visitor(val, c) == 5, "%s: the copy has another value", id.c_str()); o.val = 6; MC_CHECK(boost::apply_visitor(val, c) == 5, "%s: the copy follows the object", id.c_str()); }
            else MC_CHECK(w.nlive == 1 && !w.copies && !w.moves, "%s: the object was copied", id.c_str());
            s.outcomes.insert(id + std::to_string(c.which()));
            t.reset();
        });
    }
}
void among_all(Suite& s) {
    typedef Val T; typedef const Val C;
    among<T, T, C&, T&>(s, "T& to C&,T&"); among<T, T, T&, C&>(s, "T& to T&,C&"); among<T, T, C&>(s, "T& to C&"); among<T, T, T&>(s, "T& to T&"); among<T, T, C&, int>(s, "T& to C&,int"); among<T, T, int, T&>(s, "T& to int,T&");
    among<T, T, T>(s, "T& to T"); among<T, T, T, int>(s, "T& to T,int"); among<T, T, T, T&>(s, "T& to T,T&"); among<T, T, T&, T>(s, "T& to T&,T"); among<T, T, TT<7>&, T>(s, "T& to base&,T"); among<T, T, TT<7>&, int>(s, "T& to base&,int"); among<T, T, const TT<7>&, T&>(s, "T& to const base&,T&"); among<T, T, TT<7>&, C&>(s, "T& to base&,C&");
    among<T, C, C&>(s, "C& to C&"); among<T, C, C&, T&>(s, "C& to C&,T&"); among<T, C, T&, C&>(s, "C& to T&,C&"); among<T, C, T>(s, "C& to T"); among<T, C, T, T&>(s, "C& to T,T&"); among<T, C, T&, T>(s, "C& to T&,T"); among<T, C, const TT<7>&, TT<7>&>(s, "C& to const base&,base&"); among<T, C, TT<7>&, C&, int>(s, "C& to base&,C&,int");
    among<T, T, TT<7>&, const TT<7>&>(s, "T& to base&,const base&"); among<T, T, const TT<7>&, TT<7>&>(s, "T& to const base&,base&");
}
void plain(Suite& s) {
    s.run("plain/int", [&] {
        int i = 1, j = 2; typedef boost::variant<int&> V; V v(i), u(j), x(i);
        boost::get<int>(v) = 5; MC_CHECK(i == 5, "write"); MC_CHECK(&boost::get<int>(x) == &i && &boost::get<int>(u) == &j, "identity");
        const V& cv = v; boost::get<int>(const_cast<V&>(cv))++; MC_CHECK(i == 6, "write");
        boost::variant<int> c(v); i = 9; MC_CHECK(boost::get<int>(c) == 6, "copy of the value");
        V from(boost::get<int>(c)); boost::get<int>(from) = 12; MC_CHECK(boost::get<int>(c) == 12, "reference into another variant");
        MC_CHECK(v == x && !(v == u) && u < v, "comparison of the referred-to values"); j = i; MC_CHECK(v == u && !(v < u), "comparison follows the values"); s.calls += 8;
        std::ostringstream o; o << v; MC_CHECK(o.str() == "9", "streaming");
    });
    s.run("plain/base", [&] {
        Derived d(4); typedef boost::variant<Val&> V; V v(d); MC_CHECK(&boost::get<Val>(v) == &d, "a base reference to a derived object"); boost::variant<Derived&> dv(d); V w(dv); MC_CHECK(&boost::get<Val>(w) == &d, "conversion between variants of references"); s.calls += 2;
        V x((boost::variant<Derived&>(d))); MC_CHECK(&boost::get<Val>(x) == &d, "conversion of an rvalue variant of references"); boost::variant<const Val&> cx(w); MC_CHECK(&boost::get<const Val>(cx) == &d, "conversion to const reference");
        V cp(w); MC_CHECK(&boost::get<Val>(cp) == &d, "copy");
    });
    s.run("plain/mixed", [&] {
        int i = 3; std::string t = "text"; typedef boost::variant<int&, const std::string&, double> V;
        V a(i), b(t), c(2.5); MC_CHECK(a.which() == 0 && b.which() == 1 && c.which() == 2, "alternatives");
        MC_CHECK(&boost::get<int>(a) == &i && &boost::get<const std::string>(b) == &t && boost::get<double>(c) == 2.5, "identity");
        V d(b); t = "more"; MC_CHECK(boost::get<const std::string>(d) == "more", "reference semantics"); V e(c); boost::get<double>(e) = 1; MC_CHECK(boost::get<double>(c) == 2.5, "value semantics of the value alternative");
        MC_CHECK(!boost::relaxed_get<int>(&b) && !boost::relaxed_get<double>(&a), "get of another alternative"); s.calls += 8; s.state("mixed");
    });
}
int main(int argc, char** argv) {
    run_matrix("ref", argc, argv, [](Suite& s) {
#if MC_PART == 0
        typedef boost::variant<Obj<0>&> V1; all<V1, Obj<0> >(s, "one reference", 0, 1);
        typedef boost::variant<const Obj<0>&> V2; all<V2, const Obj<0> >(s, "one const reference", 0, 1);
        typedef boost::variant<Obj<0>&, Obj<1>&, const Obj<2>&> V3; all<V3, Obj<0> >(s, "three references", 0, 1); all<V3, Obj<1> >(s, "three references", 1, 1); all<V3, const Obj<2> >(s, "three references", 2, 1);
#elif MC_PART == 1
        typedef boost::variant<int, Obj<0>&, NN<3>, Obj<1>&> V4; all<V4, Obj<0> >(s, "references and values", 1, 1); all<V4, Obj<1> >(s, "references and values", 3, 1);
        typedef boost::make_variant_over<boost::mpl::vector<Obj<0>&, Obj<1>&> >::type V5; all<V5, Obj<0> >(s, "over a sequence", 0, 1); all<V5, Obj<1> >(s, "over a sequence", 1, 1);
        convert<boost::variant<Val&>, boost::variant<Val>, Val>(s, "reference to value", 0);
        convert<boost::variant<Val&, int>, boost::variant<int, Val>, Val>(s, "reference to value, permuted", 1);
        plain(s);
        among_all(s);
#endif
    });
    return 0;
}
