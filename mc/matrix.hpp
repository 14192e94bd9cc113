// Exhaustive matrices: a suite enumerates a finite product of cases (prepared state x call form), runs
// the real code on every one and compares with a reference computed independently.
#ifndef MC_MATRIX_HPP
#define MC_MATRIX_HPP
#include "core.hpp"
#include <boost/variant.hpp>
#include <boost/blank.hpp>
#include <memory>
#include <sstream>
#include <type_traits>
#include <typeinfo>

namespace mc {

struct Suite {
    std::string name, only, sample;
    std::set<std::string> skip, states, outcomes;
    long cases, calls;
    int found;
    bool incomplete;
    Suite() : cases(0), calls(0), found(0), incomplete(false) {}
    bool wants(const std::string& id) const { return (only.empty() || only == id) && !skip.count(name + "/" + id); }
    template <class F> void run(const std::string& id, F f) {
        if (!wants(id)) return;
        if (found > 25) { incomplete = true; return; }
        World& w = W();
        w.nlive = w.nblk = 0; w.errcat = 0; w.keep_all = true; w.armed = false; w.alloc_faults = false; w.yield_hook = 0;
        begin_case(name + "/" + id, id, id);
        ++cases;
        MC_TRY { f(); }
#ifndef MC_NO_EXC
        catch (const Injected&) { error(GENERIC, "an injected failure escaped"); }
        catch (const std::exception& e) { error(GENERIC, "unexpected exception %s", e.what()); }
        catch (...) { error(GENERIC, "unexpected exception"); }
#endif
        w.armed = false;
        if (w.nlive) error(LIFE, "%d content objects were never destroyed", w.nlive);
        if (w.nblk) error(LIFE, "%d allocations were never released", w.nblk);
        shared()->phase = 0;
        sample = id;
        if (w.errcat) {
            ++found;
            for (int i = 0; i < w.nmore; ++i) for (int c = 1; c <= GENERIC; c <<= 1) if (w.more[i].cat & c) violation(c, id, 0, std::string(w.more[i].msg) + " -- case: " + id, name + "/" + id);
        }
    }
    void state(const std::string& s) { states.insert(s); }
};

#define MC_CHECK(cond, ...) do { if (!(cond)) mc::error(mc::VALUE, __VA_ARGS__); } while (0)
#define MC_CHECKC(cat, cond, ...) do { if (!(cond)) mc::error(cat, __VA_ARGS__); } while (0)

template <class Body> void run_matrix(const std::string& name, int argc, char** argv, Body body) {
    std::string only;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--replay") only = argv[i + 1];
    if (!only.empty()) {
        if (only.compare(0, name.size() + 1, name + "/")) return;
        only = only.substr(name.size() + 1);
    }
    isolate(name, [&](const std::set<std::string>& skip) {
        Suite s; s.name = name; s.only = only; s.skip = skip;
        body(s);
        dump_outcomes(argc, argv, name, s.outcomes);
        emit("{\"stats\":\"%s\",\"states\":%ld,\"transitions\":%ld,\"runs\":%ld,\"outcomes\":%ld,\"complete\":%s,\"digest\":\"%016llx\",\"sample\":\"%s\"}\n", name.c_str(), long(s.states.size()), s.calls, s.cases, long(s.outcomes.size()),
             s.incomplete ? "false" : "true", digest(s.outcomes), esc(name + ": " + s.sample).c_str());
    }, only.empty() ? 6 : 0);
}

// ---- storage states ------------------------------------------------------------------------------------
enum St { INPLACE, HEAP, MOVEDFROM, ASSIGNED, NST };
inline const char* st_name(int s) { static const char* n[] = { "in-place", "kept-after-failure", "moved-from", "assigned" }; return n[s]; }

template <class V> bool outside(const V& v, const void* p) {
    return !((const char*)p >= (const char*)&v && (const char*)p < (const char*)&v + sizeof(V));
}
struct AddrOf : boost::static_visitor<const void*> { template <class T> const void* operator()(const T& t) const { return std::addressof(t); } };

// Fails type-changing assignments until the content of v is kept outside of it; false if that never happens.
template <class V, class Bomb> bool drive_to_heap(V& v, int bombval) {
#ifdef MC_NO_EXC
    (void)v; (void)bombval; return false;
#else
    AddrOf a;
    Bomb bomb(bombval);
    for (int k = 0; k < 8; ++k) {
        bool threw = false;
        try { Arm arm(&k, 1); v = const_cast<const Bomb&>(bomb); } catch (const Injected&) { threw = true; }
        if (!threw) return false;
        const V& c = v;
        if (outside(v, boost::apply_visitor(a, c))) return true;
    }
    return false;
#endif
}
} // namespace mc
#endif
