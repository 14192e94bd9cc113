"""C27: programs that must, and programs that must not, be accepted.

Every family is a complete product; whether an element must be accepted follows from a rule stated here, not from what
the library does. Each rejected program has accepted neighbours that differ in one type only."""
import itertools

HEAD = """#include <boost/variant.hpp>
#include <boost/variant/multivisitors.hpp>
#include <boost/variant/polymorphic_get.hpp>
#include <string>
#include <utility>
#define TYPES \\
struct Tag { char tag; friend bool operator==(const Tag&, const Tag&) { return true; } friend bool operator<(const Tag&, const Tag&) { return false; } }; struct A { int a; }; struct B { int b; }; struct C { int c; }; struct D { int d; }; \\
struct Base { int q; virtual ~Base() {} }; struct Other { virtual ~Other() {} }; struct Der : Base, Other { int r; }; struct Der2 : Der { int s; }; \\
struct MoveOnly { MoveOnly() {} MoveOnly(MoveOnly&&) noexcept {} MoveOnly& operator=(MoveOnly&&) noexcept { return *this; } }; \\
template <class T> T& lv(); typedef std::string S; struct N; typedef boost::recursive_wrapper<N> RN; struct N { boost::variant<int, RN>* p; };
"""


def program(cs):
    """Each case in a namespace with types of its own (so that nothing is instantiated for two cases) and a line name of its own."""
    return HEAD + "".join("#line 1 \"case_%d\"\nnamespace c%d { TYPES %s inline void use() { %s } void (*u)() = use; }\n" % (c[0], c[0], c[3], c[2]) for c in cs) + "int main() { return 0; }\n"


def case(name, body, ok, decl=""):
    return (name, body, decl, ok)


def gets():
    lists = {"int,S": ["int", "S"], "int": ["int"], "S,A,B": ["S", "A", "B"], "A,RN": ["A", "RN"], "Der,Base": ["Der", "Base"], "constint,A": ["const int", "A"], "int*,constA": ["int*", "const A"], "Aref,int": ["A&", "int"]}
    asked = ["int", "S", "A", "B", "N", "Der", "Base", "long", "unsigned", "bool", "int*", "const char*", "Other"]
    forms = {"ptr": "{f}<{U}>(&lv<V>())", "cptr": "{f}<const {U}>(&lv<const V>())", "ref": "{f}<{U}>(lv<V>())", "cref": "{f}<{U}>(lv<const V>())", "rvalue": "{f}<{U}>(static_cast<V&&>(lv<V>()))"}
    for (ln, L), U, (fn, form), f in itertools.product(lists.items(), asked, forms.items(), ("boost::get", "boost::strict_get")):
        plain = {"RN": "N"}
        L1 = [plain.get(t, t) for t in L]
        if any(t.endswith("&") and t[:-1] == U for t in L1):
            continue        # references: C22
        if fn == "cref" and "const " + U in L1:
            continue        # compiles, because the content of a const variant is const anyway; what it finds: C26
        if U == "int*" and fn == "cptr" or U == "const char*" and fn == "cptr":
            continue
        yield case("get %s %s of %s %s" % (f[7:], U, ln, fn), "(void)" + form.format(f=f, U=U) + ";", U in L1 or fn == "cptr" and "const " + U in L1, "typedef boost::variant<%s, Tag> V;" % ", ".join(L))


    for U, f in itertools.product(("int", "S", "A"), ("boost::get", "boost::strict_get")):
        for amp in ("", "&"):
            yield case("rvalue %s %s%s" % (f[7:], U, amp), "(void)%s<%s%s>(static_cast<V&&>(lv<V>()));" % (f, U, amp), not amp, "typedef boost::variant<int, S, A, Tag> V;")
    for U, f in itertools.product(("int", "long", "B", "Base"), ("boost::relaxed_get", "boost::polymorphic_relaxed_get")):
        for form in ("(&lv<V>())", "(&lv<const V>())", "(lv<V>())", "(lv<const V>())"):
            yield case("%s %s %s" % (f[7:], U, form), "(void)%s<%s%s>%s;" % (f, "const " if form == "(&lv<const V>())" else "", U, form), True, "typedef boost::variant<int, S, A, Tag> V;")


def polys():
    bases = {"A": ["A"], "Der": ["Der", "Base", "Other"], "Der2": ["Der2", "Der", "Base", "Other"], "Base": ["Base"], "int": ["int"], "S": ["S"], "Der&": ["Der", "Base", "Other"], "A&": ["A"]}
    lists = [["Der", "A"], ["int", "Der&"], ["A&", "S"], ["int", "Der2"], ["Base", "S"], ["A", "B2"][:1] + ["int"]]
    forms = {"ptr": "{f}<{U}>(&lv<V>())", "cptr": "{f}<const {U}>(&lv<const V>())", "ref": "{f}<{U}>(lv<V>())", "cref": "{f}<{U}>(lv<const V>())"}
    for L, U, (fn, form), f in itertools.product(lists, ["Base", "Other", "Der", "Der2", "A", "B", "S"], forms.items(), ("boost::polymorphic_get", "boost::polymorphic_strict_get")):
        yield case("%s %s of %s %s" % (f[7:], U, ",".join(L), fn), "(void)" + form.format(f=f, U=U) + ";", any(U in bases[t] for t in L), "typedef boost::variant<%s, Tag> V;" % ", ".join(L))


def compares():
    ops = ["==", "!=", "<", ">", "<=", ">="]
    for op, (r, ok) in itertools.product(ops, [("V", True), ("const V", True), ("int", False), ("S", False), ("boost::variant<int, S, Tag, A>", False), ("boost::variant<S, int, Tag>", False)]):
        yield case("compare %s %s" % (op, r), "(void)(lv<V>() %s lv<%s>());" % (op, r), ok, "typedef boost::variant<int, S, Tag> V;")


def visitors():
    T = ["A", "B", "C", "D"]
    how = {"apply": "boost::apply_visitor(lv<const Vis>(), lv<V>())", "applyconst": "boost::apply_visitor(lv<const Vis>(), lv<const V>())", "rvalue": "boost::apply_visitor(lv<const Vis>(), static_cast<V&&>(lv<V>()))", "member": "lv<V>().apply_visitor(lv<const Vis>())", "delayed": "boost::apply_visitor(lv<const Vis>())(lv<V>())"}
    for n in range(16):     # every subset of the alternatives is handled
        sub = [T[i] for i in range(4) if n >> i & 1]
        for hn, h in how.items():
            ds = "typedef boost::variant<A, B, C, D> V; struct Vis : boost::static_visitor<int> { %s int operator()(const S&) const { return 9; } };" % " ".join("int operator()(const %s&) const { return 1; }" % t for t in sub)
            yield case("visitor for %s %s" % ("".join(sub), hn), "(void)%s;" % h, len(sub) == 4, ds)
    P = [(a, b) for a in "AB" for b in "CD"]
    for n in range(16):     # every subset of the pairs
        sub = [P[i] for i in range(4) if n >> i & 1]
        for hn, h in {"two": "boost::apply_visitor(lv<const Vis>(), lv<V>(), lv<const W>())", "twodelayed": "boost::apply_visitor(lv<const Vis>())(lv<V>(), lv<W>())"}.items():
            ds = "typedef boost::variant<A, B> V; typedef boost::variant<C, D> W; struct Vis : boost::static_visitor<int> { %s int operator()(const S&) const { return 9; } int operator()(const S&, const S&) const { return 9; } };" % " ".join("int operator()(const %s&, const %s&) const { return 1; }" % p for p in sub)
            yield case("visitor for %s %s" % (" ".join(a + b for a, b in sub), hn), "(void)%s;" % h, len(sub) == 4, ds)
    for n in range(1, 9):      # three operands, one combination missing (none for 8)
        sub = [p for i, p in enumerate(itertools.product("AB", "CD", "AC")) if i != n]
        ds = "typedef boost::variant<A, B> V; typedef boost::variant<C, D> W; typedef boost::variant<A, C> X; struct Vis : boost::static_visitor<int> { %s };" % " ".join("int operator()(const %s&, const %s&, const %s&) const { return 1; }" % p for p in sub)
        yield case("visitor for three without %d" % n, "(void)boost::apply_visitor(lv<const Vis>(), lv<V>(), lv<W>(), lv<const X>());", n == 8, ds)
    # constness and category: parameter type against variant category
    pas = {"T&": ("V",), "const T&": ("V", "const V", "V&&"), "T&&": ("V&&",)}
    for (par, okfor), cat, first in itertools.product(pas.items(), ("V", "const V", "V&&"), (0, 1)):
        other = "int operator()(const B&) const { return 2; }" if not first else "template <class T> int operator()(T&&) const { return 2; } "
        if first:
            ds = "typedef boost::variant<A> V; struct Vis : boost::static_visitor<int> { int operator()(%s) const { return 1; } };" % par.replace("T", "A")
        else:
            ds = "typedef boost::variant<A, B> V; struct Vis : boost::static_visitor<int> { int operator()(%s) const { return 1; } %s };" % (par.replace("T", "A"), other)
        v = "static_cast<V&&>(lv<V>())" if cat == "V&&" else "lv<%s>()" % cat
        yield case("visitor taking %s for %s %d" % (par, cat, first), "(void)boost::apply_visitor(lv<const Vis>(), %s);" % v, cat in okfor, ds)
    # the same for two operands
    for (p1, ok1), (p2, ok2), c1, c2 in itertools.product(pas.items(), pas.items(), ("V", "const V", "V&&"), ("V", "const V", "V&&")):
        ds = "typedef boost::variant<A> V; typedef boost::variant<B> W; struct Vis : boost::static_visitor<int> { int operator()(%s, %s) const { return 1; } };" % (p1.replace("T", "A"), p2.replace("T", "B"))
        v = "static_cast<V&&>(lv<V>())" if c1 == "V&&" else "lv<%s>()" % c1
        w = ("static_cast<V&&>(lv<V>())" if c2 == "V&&" else "lv<%s>()" % c2).replace("V", "W")
        yield case("visitor taking %s, %s for %s, %s" % (p1, p2, c1, c2), "(void)boost::apply_visitor(lv<const Vis>(), %s, %s);" % (v, w), c1 in ok1 and c2 in ok2, ds)
    # a const visitor needs a const call operator
    for cv, q in itertools.product(("Vis", "const Vis"), ("const", "")):
        yield case("call operator %s of %s" % (q, cv), "(void)boost::apply_visitor(lv<%s>(), lv<V>());" % cv, q == "const" or cv == "Vis", "typedef boost::variant<A, B> V; struct Vis : boost::static_visitor<int> { template <class T> int operator()(const T&) %s { return 1; } };" % q)


def values():
    # const objects and content are not given out for writing
    for U, form, ok in [(u, f, o) for u in ("int", "S") for f, o in (("{U}& r = boost::get<{U}>(lv<V>());", True), ("{U}& r = boost::get<{U}>(lv<const V>());", False), ("const {U}& r = boost::get<{U}>(lv<const V>());", True), ("{U}* r = boost::get<{U}>(&lv<V>());", True), ("{U}* r = boost::get<{U}>(&lv<const V>());", False), ("const {U}* r = boost::get<{U}>(&lv<const V>());", True), ("{U}&& r = boost::get<{U}>(static_cast<V&&>(lv<V>()));", True), ("{U}&& r = boost::strict_get<{U}>(lv<V>());", False), ("{U}& r = boost::relaxed_get<{U}>(lv<const V>());", False), ("{U}& r = boost::polymorphic_get<{U}>(lv<const V>());", False))]:
        yield case("bind " + form.format(U=U), form.format(U=U) + " (void)r;", ok, "typedef boost::variant<int, S, Tag> V;")
    # const variants cannot be changed
    for st, ok in (("lv<V>() = lv<const V>();", True), ("lv<const V>() = lv<const V>();", False), ("lv<const V>() = 1;", False), ("lv<const V>() = lv<S>();", False), ("lv<V>().swap(lv<V>());", True), ("lv<const V>().swap(lv<V>());", False), ("lv<V>().swap(lv<const V>());", False), ("swap(lv<V>(), lv<V>());", True), ("swap(lv<const V>(), lv<V>());", False), ("swap(lv<V>(), lv<const V>());", False)):
        yield case("const " + st, st, ok, "typedef boost::variant<int, S, Tag> V;")
    # what the contents cannot do, the variant cannot do
    for L, st, ok in [(l, s, (o if "MoveOnly" in l or "const" in l or "&" in l else True)) for l in ("A, S", "A, MoveOnly", "MoveOnly", "A, const S", "const A", "A&, int") for s, o in (
            ("V v(lv<const V>()); (void)v;", "MoveOnly" not in l), ("V v(static_cast<V&&>(lv<V>())); (void)v;", True), ("lv<V>() = lv<const V>();", False), ("lv<V>() = static_cast<V&&>(lv<V>());", "MoveOnly" in l))]:
        yield case("contents %s %s" % (L, st), st, ok, "typedef boost::variant<%s> V;" % L)
    # arguments: no alternative, or no best one
    for L, arg, ok in [("A, B", "lv<A>()", True), ("A, B", "lv<C>()", False), ("A, B", "1", False), ("A, B", 'S("x")', False), ("A, S", '"x"', True), ("A, int", '"x"', False), ("long, short", "1", False), ("long, A", "1", True), ("int, long", "1", True), ("float, long", "1", False), ("float, A", "1", True),
                       ("A, B", "lv<A*>()", False), ("int*, A", "lv<int*>()", True), ("int*, A", "lv<const int*>()", False), ("Base*, A", "lv<Der*>()", True), ("Der*, A", "lv<Base*>()", False), ("A, int", "nullptr", False), ("int*, A", "nullptr", True), ("int*, A*", "nullptr", False)]:
        for how, st in (("construct", "V v(%s); (void)v;"), ("assign", "lv<V>() = %s;")):
            yield case("%s %s from %s" % (how, L, arg), st % arg, ok, "typedef boost::variant<%s, Tag> V;" % L)
    # variants into variants
    for L, M in itertools.product(("A", "A, B", "A, B, C", "B, A", "A, D"), repeat=2):
        sub = set(L.split(", ")) <= set(M.split(", "))
        for how, st in (("construct", "M m(lv<const V>()); (void)m;"), ("assign", "lv<M>() = lv<const V>();"), ("move", "M m(static_cast<V&&>(lv<V>())); (void)m;")):
            yield case("%s %s into %s" % (how, L, M), st, sub, "typedef boost::variant<%s> V; typedef boost::variant<%s> M;" % (L, M))


def cases():
    """(number, name, body, declarations, must be accepted)"""
    seen, out = set(), []
    for g in (gets, polys, compares, visitors, values):
        for name, body, decl, ok in g():
            if name not in seen:
                seen.add(name)
                out.append((len(out), name, body, decl, ok))
    return out


def batches(size):
    cs = cases()
    for ok in (True, False):
        part = [c for c in cs if c[4] == ok]
        n = -(-len(part) // size)
        for k in range(n):
            yield ("accept" if ok else "reject") + "_%d" % k, part[k::n], ok


if __name__ == "__main__":
    cs = cases()
    print(len(cs), sum(not c[4] for c in cs))
