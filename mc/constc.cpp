// Const-qualified alternatives (C26): list x alternative x way of making the variant x way of reading it x every fault.
#define MC_MAIN
#include "matrix.hpp"
#include <boost/functional/hash.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/variant/multivisitors.hpp>
#include <boost/variant/polymorphic_get.hpp>
using namespace mc;
#ifndef MC_PART
#define MC_PART 0
#endif
template <class T> struct Val { static int of(const T& t) { return t.val; } static T make(int v) { return T(v); } enum { mine = 1 }; };
template <> struct Val<int> { static int of(int t) { return t; } static int make(int v) { return v; } enum { mine = 0 }; };
template <> struct Val<std::string> { static int of(const std::string& t) { return int(t.size()) - 40; } static std::string make(int v) { return std::string(40 + v, 'x'); } enum { mine = 0 }; };
struct Seen { const void* p; int cst, val, calls; const char* cat; };
// records the object, whether it came const, and its category
struct See : boost::static_visitor<> { Seen* s;
    template <class T> void operator()(T& t) const { s->p = std::addressof(t); s->cst = std::is_const<T>::value; s->val = Val<typename std::remove_const<T>::type>::of(t); ++s->calls; s->cat = "lvalue"; }
    template <class T, class = typename std::enable_if<!std::is_lvalue_reference<T>::value>::type> void operator()(T&& t, int = 0) const { s->p = std::addressof(t); s->cst = std::is_const<T>::value; s->val = Val<typename std::remove_const<T>::type>::of(t); ++s->calls; s->cat = "rvalue"; } };
struct See2 : boost::static_visitor<> { Seen* s;
    template <class A, class B> void operator()(A& a, B& b) const { s[0].p = std::addressof(a); s[0].cst = std::is_const<A>::value; s[1].p = std::addressof(b); s[1].cst = std::is_const<B>::value; ++s->calls; } };

template <class V> void no_write(const V&) {}
// read v, whose alternative `which` holds T (const or not) with value val
template <class V, class T> void read(Suite& s, const std::string& id, V& v, int which, int val) {
    typedef typename std::remove_const<T>::type U; const bool cst = std::is_const<T>::value;
    World& w = W(); const V& c = v; Arm arm(0, 0); Seen r; See see; see.s = &r;
    MC_CHECK(v.which() == which && !v.empty(), "%s: which() is %d", id.c_str(), v.which());
    const void* in = boost::apply_visitor(AddrOf(), c);
    MC_CHECKC(PLACE, !outside(v, in), "%s: content does not lie in the variant", id.c_str());
    for (int k = 0; k < 4; ++k) {
        memset(&r, 0, sizeof r);
        if (k == 0) boost::apply_visitor(see, v); else if (k == 1) boost::apply_visitor(see, c); else if (k == 2) v.apply_visitor(see); else c.apply_visitor(see);
        MC_CHECK(r.calls == 1 && r.p == in && r.val == val, "%s: visitation %d gave value %d", id.c_str(), k, r.val);
        MC_CHECK(r.cst == (cst || k % 2), "%s: visitation %d gave %s object", id.c_str(), k, r.cst ? "a const" : "a mutable");
    }
    Seen two[2]; memset(two, 0, sizeof two); See2 s2; s2.s = two; boost::apply_visitor(s2, v, c);
    MC_CHECK(two[0].p == in && two[1].p == in && two[0].cst == cst && two[1].cst, "%s: binary visitation", id.c_str());
    MC_CHECK((const void*)boost::get<const U>(&v) == in && (const void*)boost::get<const U>(&c) == in && (const void*)&boost::get<const U>(v) == in && (const void*)&boost::get<const U>(c) == in, "%s: get", id.c_str());
    MC_CHECK((const void*)boost::strict_get<const U>(&v) == in && (const void*)boost::relaxed_get<const U>(&v) == in && (const void*)boost::relaxed_get<const U>(&c) == in, "%s: get", id.c_str());
    MC_CHECK((const void*)boost::polymorphic_relaxed_get<const U>(&v) == in && (const void*)boost::polymorphic_get<const U>(&c) == in && (const void*)&boost::polymorphic_get<const U>(v) == in, "%s: polymorphic_get", id.c_str());
    MC_CHECK(!boost::relaxed_get<double>(&v) && !boost::relaxed_get<const double>(&c), "%s: get of another type", id.c_str());
    MC_CHECK((boost::relaxed_get<U>(&v) != 0) == !cst, "%s: get of the type without const gave %s", id.c_str(), cst ? "a mutable pointer to const content" : "nothing");
    MC_CHECK((boost::polymorphic_relaxed_get<U>(&v) != 0) == !cst, "%s: polymorphic_get of the type without const", id.c_str());
    { bool threw = false; try { boost::relaxed_get<U>(v); } catch (const boost::bad_get&) { threw = true; } MC_CHECK(threw == cst, "%s: get by reference of the type without const", id.c_str()); }
#ifndef BOOST_NO_RTTI
    MC_CHECK(v.type() == typeid(U), "%s: type()", id.c_str());
#endif
    MC_CHECK(!w.copies && !w.moves && !w.points, "%s: reading copied content", id.c_str());
    s.calls += 20;
}
template <class V, class T> V make(int way, typename std::remove_const<T>::type& u) {
    typedef typename std::remove_const<T>::type U;
    switch (way) { case 0: return V(const_cast<const U&>(u)); case 1: return V(u); case 2: return V(std::move(u)); default: return V(static_cast<const U&&>(u)); }
}
enum { NMAKE = 9 };
// from: a variant without const alternatives
template <class V, class From, class T> void alt(Suite& s, const char* name, int which) {
    typedef typename std::remove_const<T>::type U; const bool cst = std::is_const<T>::value;
    static const char* wn[] = { "const lvalue", "lvalue", "rvalue", "const rvalue", "copy", "copy of lvalue", "move", "conversion", "conversion of rvalue" };
    for (int way = 0; way < NMAKE; ++way) for (int val = 1; val <= 2; ++val) for (int plan = -1; plan < 6; ++plan) {
        std::string id = std::string(name) + "/" + std::to_string(which) + "/" + wn[way] + "/" + std::to_string(val) + (plan < 0 ? "" : "!" + std::to_string(plan));
        bool stop = false;
        s.run(id, [&] {
            World& w = W(); bool threw = false; V* v = 0; alignas(V) unsigned char room[sizeof(V) + 16]; memset(room, 0xCD, sizeof room);
            { U u(Val<U>::make(val)); V src(const_cast<const U&>(u)); From from(const_cast<const U&>(u)); long copies = 0;
              try { Arm arm(&plan, plan < 0 ? 0 : 1); ++s.calls;
                switch (way) {
                case 0: v = new (room) V(const_cast<const U&>(u)); break; case 1: v = new (room) V(u); break; case 2: v = new (room) V(std::move(u)); break; case 3: v = new (room) V(static_cast<const U&&>(u)); break;
                case 4: v = new (room) V(const_cast<const V&>(src)); break; case 5: v = new (room) V(src); break; case 6: v = new (room) V(std::move(src)); break;
                case 7: v = new (room) V(const_cast<const From&>(from)); break; default: v = new (room) V(std::move(from)); break;
                }
              } catch (const Injected&) { threw = true; }
              copies = w.copies; int fired = w.fired; w.armed = false;
              MC_CHECK(threw == (fired > 0), "%s: the construction %s", id.c_str(), threw ? "failed by itself" : "swallowed an exception");
              if (plan >= 0 && !fired) stop = true;
              if (v) { read<V, T>(s, id, *v, which, val); s.state(id);
                if (way == 6) { if (cst) read<V, T>(s, id + " source", src, which, val); else MC_CHECK(src.which() == which, "%s: the source changed its alternative", id.c_str()); }
                else read<V, T>(s, id + " source", src, which, val);
                if (way != 2 && way != 8) { MC_CHECK(Val<U>::of(u) == val, "%s: the argument changed", id.c_str()); MC_CHECK(Val<U>::of(boost::get<U>(from)) == val, "%s: the source changed", id.c_str()); }
                if (way == 2 && !cst && std::is_nothrow_move_constructible<U>::value) MC_CHECK(!copies, "%s: an rvalue was copied", id.c_str());
                { NoFault nf; V again(*v); read<V, T>(s, id + " again", again, which, val); read<V, T>(s, id, *v, which, val); MC_CHECK(again == *v && !(again < *v) && !(*v < again) && !(again != *v), "%s: a copy compares different", id.c_str());
                  MC_CHECK(boost::hash<V>()(again) == boost::hash<V>()(*v), "%s: a copy hashes differently", id.c_str()); MC_CHECK(boost::hash<V>()(*v) == boost::hash<From>()(From(Val<U>::make(val))), "%s: const changes the hash", id.c_str());
                  std::ostringstream a, b; a << *v; b << Val<U>::make(val); MC_CHECK(a.str() == b.str(), "%s: wrote %s", id.c_str(), a.str().c_str()); }
                v->~V(); }
              else read<V, T>(s, id + " source", src, which, way == 6 && !cst ? Val<U>::of(boost::get<const U>(src)) : val);
            }
            for (int i = 0; i < 16; ++i) MC_CHECKC(PLACE, room[sizeof(V) + i] == 0xCD, "%s: memory behind the variant was overwritten", id.c_str());
            MC_CHECKC(LIFE, !w.nlive, "%s: %d objects are still alive", id.c_str(), w.nlive);
            s.outcomes.insert(id + (threw ? " fails" : ""));
        });
        if (stop) break;
    }
}
// comparison with the same variant without const
template <class V, class From, class A, class B> void order(Suite& s, const char* name, int i, int j) {
    typedef typename std::remove_const<A>::type U; typedef typename std::remove_const<B>::type W_;
    for (int x = 1; x <= 2; ++x) for (int y = 1; y <= 2; ++y) s.run(std::string(name) + "/order/" + std::to_string(i) + std::to_string(j) + "/" + std::to_string(x) + std::to_string(y), [&] {
        V a(Val<U>::make(x)), b(Val<W_>::make(y)); From c(Val<U>::make(x)), d(Val<W_>::make(y)); ++s.calls;
        MC_CHECK((a == b) == (c == d) && (a != b) == (c != d) && (a < b) == (c < d) && (a > b) == (c > d) && (a <= b) == (c <= d) && (a >= b) == (c >= d), "const changes the comparison");
    });
}
template <class A, class B, class C> void list3(Suite& s, const char* name) {
    typedef boost::variant<A, B, C> V; typedef typename std::remove_const<A>::type UA; typedef typename std::remove_const<B>::type UB; typedef typename std::remove_const<C>::type UC; typedef boost::variant<UA, UB, UC> F;
    alt<V, F, A>(s, name, 0); alt<V, F, B>(s, name, 1); alt<V, F, C>(s, name, 2);
    order<V, F, A, A>(s, name, 0, 0); order<V, F, A, B>(s, name, 0, 1); order<V, F, A, C>(s, name, 0, 2); order<V, F, B, A>(s, name, 1, 0); order<V, F, B, B>(s, name, 1, 1); order<V, F, B, C>(s, name, 1, 2); order<V, F, C, A>(s, name, 2, 0); order<V, F, C, B>(s, name, 2, 1); order<V, F, C, C>(s, name, 2, 2);
}
template <class A, class B> void list2(Suite& s, const char* name) {
    typedef boost::variant<A, B> V; typedef typename std::remove_const<A>::type UA; typedef typename std::remove_const<B>::type UB; typedef boost::variant<UA, UB> F;
    alt<V, F, A>(s, name, 0); alt<V, F, B>(s, name, 1); order<V, F, A, B>(s, name, 0, 1); order<V, F, B, A>(s, name, 1, 0); order<V, F, A, A>(s, name, 0, 0); order<V, F, B, B>(s, name, 1, 1);
}
int main(int argc, char** argv) {
    run_matrix("const", argc, argv, [](Suite& s) {
#if MC_PART == 0
        list2<const TT<0>, TT<1> >(s, "cTT,TT"); list2<TT<0>, const TN<1> >(s, "TT,cTN");
#elif MC_PART == 1
        list2<const TT<0>, const TN<1> >(s, "cTT,cTN"); list3<const int, const std::string, const TT<2> >(s, "cint,cstring,cTT");
#elif MC_PART == 2
        list3<int, const TT<1>, std::string>(s, "int,cTT,string"); list2<const NN<0>, const NT<1> >(s, "cNN,cNT");
#elif MC_PART == 3
        list3<const BIG<0>, int, const SM<2> >(s, "cBIG,int,cSM"); list3<const CO<0>, const TNa<1>, const std::string>(s, "cCO,cTNa,cstring");
#endif
    });
    return 0;
}
