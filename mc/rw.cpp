// recursive_wrapper on its own (C25): explicit-state search over the values of two wrappers under every
// operation and every fault plan (no fault, every single fault, every pair).
#define MC_MAIN
#include "matrix.hpp"
#include <boost/variant/recursive_wrapper.hpp>
#include <deque>
#include <functional>
#include <map>
using namespace mc;
#ifndef MC_PART
#define MC_PART 0
#endif

// usable while its type is incomplete
struct Later;
struct Early { boost::recursive_wrapper<Later> w; Early(); Early(const Later&); Early(const Early&); Early& operator=(const Early&); ~Early(); };
struct Later { int v; int depth; };
Early::Early() : w() {} Early::Early(const Later& l) : w(l) {} Early::Early(const Early& o) : w(o.w) {} Early& Early::operator=(const Early& o) { w = o.w; return *this; } Early::~Early() {}

template <class T> struct Rw {
    typedef boost::recursive_wrapper<T> R;
    struct Pair { R* s[2]; };
    struct Op { std::string name; int x, y, val; char kind; std::function<void(Pair&)> run; };   // run arms nothing itself
    std::vector<Op> ops;
    static std::string ch(int i) { return std::string(1, char('a' + i)); }
    void add(const std::string& n, char k, int x, int y, int v, std::function<void(Pair&)> f) { Op o; o.name = n; o.kind = k; o.x = x; o.y = y; o.val = v; o.run = f; ops.push_back(o); }
    struct Prep { T* arg; const int* plan; int n; bool allocs; } prep;
    // kinds: C copy from wrapper, M move from wrapper, c copy from value, m move from value, S swap, D default, W write, s self content
    void build(std::true_type) {
        for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) {
            add("copy-assign(" + ch(x) + "," + ch(y) + ")", 'C', x, y, 0, [x, y](Pair& p) { R& r = (*p.s[x] = const_cast<const R&>(*p.s[y])); MC_CHECK(&r == p.s[x], "assignment does not return its left operand"); });
            add("copy-assign-lvalue(" + ch(x) + "," + ch(y) + ")", 'C', x, y, 0, [x, y](Pair& p) { R& r = (*p.s[x] = *p.s[y]); MC_CHECK(&r == p.s[x], "assignment does not return its left operand"); });
            add("copy-construct(" + ch(x) + "," + ch(y) + ")", 'N', x, y, 0, [x, y](Pair& p) { R* n = new R(const_cast<const R&>(*p.s[y])); delete p.s[x]; p.s[x] = n; });
            add("copy-construct-lvalue(" + ch(x) + "," + ch(y) + ")", 'N', x, y, 0, [x, y](Pair& p) { R* n = new R(*p.s[y]); delete p.s[x]; p.s[x] = n; });
            add("assign-content(" + ch(x) + "," + ch(y) + ")", 'C', x, y, 0, [x, y](Pair& p) { R& r = (*p.s[x] = const_cast<const T&>(p.s[y]->get())); MC_CHECK(&r == p.s[x], "assignment does not return its left operand"); });
        }
        for (int x = 0; x < 2; ++x) for (int v = 1; v < 3; ++v) {
            std::string a = "(" + ch(x) + "," + std::to_string(v) + ")";
            add("assign-const" + a, 'c', x, -1, v, [x, this](Pair& p) { R& r = (*p.s[x] = const_cast<const T&>(*prep.arg)); MC_CHECK(&r == p.s[x], "assignment does not return its left operand"); });
            add("construct-const" + a, 'n', x, -1, v, [x, this](Pair& p) { R* n = new R(const_cast<const T&>(*prep.arg)); delete p.s[x]; p.s[x] = n; });
        }
    }
    void build(std::false_type) {}
    void build_default(std::true_type) { for (int x = 0; x < 2; ++x) add("default-construct(" + ch(x) + ")", 'D', x, -1, V_DEFAULT, [x](Pair& p) { R* n = new R(); delete p.s[x]; p.s[x] = n; }); }
    void build_default(std::false_type) {}
    void build_all() {
        build(std::is_copy_constructible<T>());
        build_default(std::is_default_constructible<T>());
        for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) {
            add("move-assign(" + ch(x) + "," + ch(y) + ")", 'M', x, y, 0, [x, y](Pair& p) { R& r = (*p.s[x] = std::move(*p.s[y])); MC_CHECK(&r == p.s[x], "assignment does not return its left operand"); });
            add("move-construct(" + ch(x) + "," + ch(y) + ")", 'O', x, y, 0, [x, y](Pair& p) { R* n = new R(std::move(*p.s[y])); delete p.s[x]; p.s[x] = n; });
            add("swap(" + ch(x) + "," + ch(y) + ")", 'S', x, y, 0, [x, y](Pair& p) { p.s[x]->swap(*p.s[y]); });
            add("free-swap(" + ch(x) + "," + ch(y) + ")", 'S', x, y, 0, [x, y](Pair& p) { swap(*p.s[x], *p.s[y]); });
        }
        for (int x = 0; x < 2; ++x) for (int v = 1; v < 3; ++v) {
            std::string a = "(" + ch(x) + "," + std::to_string(v) + ")";
            add("assign-rvalue" + a, 'm', x, -1, v, [x, this](Pair& p) { R& r = (*p.s[x] = std::move(*prep.arg)); MC_CHECK(&r == p.s[x], "assignment does not return its left operand"); });
            add("construct-rvalue" + a, 'o', x, -1, v, [x, this](Pair& p) { R* n = new R(std::move(*prep.arg)); delete p.s[x]; p.s[x] = n; });
            add("write-through" + a, 'W', x, -1, v, [x, v](Pair& p) { p.s[x]->get().val = v; });
        }
    }
    static int value(const R& r) {
        const T* p = r.get_pointer();
        MC_CHECK(p && std::addressof(r.get()) == p && const_cast<R&>(r).get_pointer() == p && std::addressof(const_cast<R&>(r).get()) == p, "get and get_pointer disagree, or are null");
        if (!p) return -99;
        MC_CHECKC(LIFE, is_live(static_cast<const void*>(p), T::TID), "the wrapper holds no live object");
        return W().errcat ? -99 : p->val;
    }
    struct Res { int points; bool threw; int post[2]; bool ok; };
    typedef std::vector<std::pair<int, std::vector<int> > > Hist;
    std::string text(const Hist& h) { std::string s; for (std::size_t i = 0; i < h.size(); ++i) { s += (i ? "; " : "") + ops[h[i].first].name; for (std::size_t j = 0; j < h[i].second.size(); ++j) s += "!" + std::to_string(h[i].second[j]); } return s; }
    Res run(Suite& su, const std::string& nm, const Hist& h, bool allocs) {
        Res r = Res(); r.ok = false;
        std::string id = nm + (allocs ? "/allocation failures: " : ": ") + text(h);
        su.run(id, [&] {
            World& w = W(); Pair p;
            { Arm a(0, 0); for (int i = 0; i < 2; ++i) { T t(1); p.s[i] = new R(std::move(t)); } }
            for (std::size_t i = 0; i < h.size(); ++i) {
                bool last = i + 1 == h.size();
                const Op& o = ops[h[i].first];
                int pre[2] = { value(*p.s[0]), value(*p.s[1]) };
                int argv = 0;
                {
                    T arg(o.val ? o.val : 1);
                    prep.arg = std::addressof(arg);
                    r.threw = false;
                    { Arm arm(h[i].second.empty() ? 0 : &h[i].second[0], int(h[i].second.size())); w.alloc_faults = allocs;
                      try { o.run(p); } catch (const Injected& e) { r.threw = true; MC_CHECK(e.point == w.last_point, "another exception escaped"); } catch (const InjectedAlloc& e) { r.threw = true; MC_CHECK(e.point == w.last_point, "another exception escaped"); }
                      w.alloc_faults = false; }
                    argv = arg.val;
                }
                r.points = w.points;
                if (!last) continue;
                ++su.calls;
                int q[2] = { value(*p.s[0]), value(*p.s[1]) };
                MC_CHECKC(LIFE, w.nlive == 2, "%d objects are alive, two wrappers own one each", w.nlive);
                MC_CHECKC(LIFE, p.s[0]->get_pointer() != p.s[1]->get_pointer(), "two wrappers share one object");
                for (int k = 0; k < 2; ++k) {
                    const char* z = q[k] == V_MOVED ? "moved-from" : "";
                    if (k != o.x && k != o.y) MC_CHECK(q[k] == pre[k], "an unrelated wrapper changed");
                    (void)z;
                }
                int x = o.x, y = o.y;
                if (r.threw) {
                    MC_CHECK(w.fired > 0, "the operation failed by itself");
                    switch (o.kind) {
                    case 'C': if (x != y) MC_CHECK(q[y] == pre[y], "a failed copy changed its source"); MC_CHECK(q[x] == pre[x] || q[x] == pre[y], "a failed copy assignment left %d", q[x]); break;
                    case 'N': MC_CHECK(q[0] == pre[0] && q[1] == pre[1], "a failed copy construction changed something"); break;
                    case 'c': MC_CHECK(q[x] == pre[x] || q[x] == o.val, "a failed assignment left %d", q[x]); MC_CHECK(argv == o.val, "a failed copy changed its source"); break;
                    case 'n': case 'D': MC_CHECK(q[x] == pre[x], "a failed construction changed something"); if (o.kind == 'n') MC_CHECK(argv == o.val, "a failed copy changed its source"); break;
                    case 'O': case 'M': MC_CHECK(q[x] == pre[x] || q[x] == pre[y] || q[x] == V_MOVED, "a failed move left %d", q[x]); MC_CHECK(q[y] == pre[x] || q[y] == pre[y] || q[y] == V_MOVED, "a failed move left %d", q[y]); break;
                    case 'o': MC_CHECK(q[x] == pre[x], "a failed construction changed something"); break;
                    case 'm': MC_CHECK(q[x] == pre[x] || q[x] == o.val, "a failed assignment left %d", q[x]); break;
                    default: MC_CHECK(false, "%s failed", o.name.c_str());
                    }
                } else switch (o.kind) {
                    case 'C': case 'N': MC_CHECK(q[x] == pre[y], "the copy of %d has value %d", pre[y], q[x]); if (x != y) MC_CHECK(q[y] == pre[y], "copying changed the source"); break;
                    case 'M': case 'O': if (x != y) MC_CHECK(q[x] == pre[y], "moving %d gave %d", pre[y], q[x]); else MC_CHECK(q[x] == pre[y] || q[x] == V_MOVED, "self move gave %d", q[x]);
                              if (x != y) MC_CHECK(q[y] == pre[y] || q[y] == pre[x] || q[y] == V_MOVED, "the moved-from wrapper holds the invented value %d", q[y]);
                              if (std::is_nothrow_move_constructible<T>::value) MC_CHECK(w.copies == 0, "a move copied the value"); break;
                    case 'c': case 'n': MC_CHECK(q[x] == o.val && argv == o.val, "%d gave %d and left %d in the argument", o.val, q[x], argv); break;
                    case 'm': case 'o': MC_CHECK(q[x] == o.val, "%d gave %d", o.val, q[x]); if (std::is_nothrow_move_constructible<T>::value) MC_CHECK(w.copies == 0, "a move copied the value"); break;
                    case 'S': MC_CHECK(q[x] == pre[y] && q[y] == pre[x], "swap of %d and %d gave %d and %d", pre[x], pre[y], q[x], q[y]); break;
                    case 'D': MC_CHECK(q[x] == V_DEFAULT, "default construction gave %d", q[x]); break;
                    case 'W': MC_CHECK(q[x] == o.val, "writing through get gave %d", q[x]); break;
                }
                if (o.kind == 'S') MC_CHECK(w.points == 0 && !w.copies && !w.moves && !w.allocs, "swap does more than exchange the owned objects");
                r.post[0] = q[0]; r.post[1] = q[1];
            }
            { Arm a(0, 0); delete p.s[0]; delete p.s[1]; }
            r.ok = !w.errcat;
        });
        return r;
    }
    void explore(Suite& su, const char* nm) {
        build_all();
        for (int al = 0; al < 2; ++al) {
            std::set<std::pair<int, int> > seen; std::deque<Hist> q;
            seen.insert(std::make_pair(1, 1)); q.push_back(Hist());
            su.state(std::string(nm) + "1,1");
            while (!q.empty()) {
                Hist h = q.front(); q.pop_front();
                for (int o = 0; o < int(ops.size()); ++o) {
                    Hist g = h; g.push_back(std::make_pair(o, std::vector<int>()));
                    std::function<void(const Res&)> push = [&](const Res& r) {
                        if (!r.ok) return;
                        su.outcomes.insert(std::string(nm) + ops[o].name + (r.threw ? "!" : "") + std::to_string(r.post[0]) + "," + std::to_string(r.post[1]));
                        if (seen.insert(std::make_pair(r.post[0], r.post[1])).second) { q.push_back(g); su.state(std::string(nm) + std::to_string(r.post[0]) + "," + std::to_string(r.post[1])); }
                    };
                    Res r = run(su, nm, g, al); push(r);
                    for (int i = 0; i < r.points; ++i) {
                        g.back().second.assign(1, i);
                        Res r1 = run(su, nm, g, al); push(r1);
                        for (int j = i + 1; j < r1.points; ++j) { g.back().second.assign(1, i); g.back().second.push_back(j); push(run(su, nm, g, al)); }
                    }
                }
            }
        }
    }
};
template <class T> void go(Suite& s, const char* n) { Rw<T> r; r.explore(s, n); }
int main(int argc, char** argv) {
    run_matrix("rw", argc, argv, [](Suite& s) {
#if MC_PART == 0
        go<TT<0> >(s, "TT"); go<TN<0> >(s, "TN"); go<NT<0> >(s, "NT"); go<XTT<0> >(s, "XTT"); go<DTN<0> >(s, "DTN");
        s.run("incomplete", [&] { Later l = { 3, 4 }; Early e(l), f(e); f.w.get().v = 5; MC_CHECK(e.w.get().v == 3 && f.w.get().v == 5, "copies share"); e = f; MC_CHECK(e.w.get().v == 5 && e.w.get().depth == 4, "assignment"); Early d; MC_CHECK(d.w.get_pointer(), "default"); s.calls += 4; });
#elif MC_PART == 1
        go<NN<0> >(s, "NN"); go<MO<0> >(s, "MO"); go<MOT<0> >(s, "MOT"); go<SW<0> >(s, "SW"); go<CO<0> >(s, "CO"); go<TNa<0> >(s, "TNa");
#elif MC_PART == 2
        go<TA<0> >(s, "TA"); go<GR<0> >(s, "GR"); go<AS<0> >(s, "AS"); go<SM<0> >(s, "SM"); go<BIG<0> >(s, "BIG"); go<AMP<0> >(s, "AMP"); go<TM<0> >(s, "TM");
#endif
    });
    return 0;
}
