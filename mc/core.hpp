// Shared runtime of the explorers: fault injection at every content operation and allocation,
// an object-lifetime registry, a heap ledger, and process isolation (a crash of the code under
// test ends a child process and is reported as a violation of the history that was running).
// C++11, no dependency on the library under test.
#ifndef MC_CORE_HPP
#define MC_CORE_HPP
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>
#include <set>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#if !defined(__EXCEPTIONS) && !defined(MC_NO_EXC)
#define MC_NO_EXC 1
#endif
#ifdef MC_NO_EXC
#define MC_TRY if (true)
#define MC_CATCH(x) if (false)
#else
#define MC_TRY try
#define MC_CATCH(x) catch (x)
#endif

namespace mc {

enum Cat { EMPTY = 1, LIFE = 2, VALUE = 4, FAIL = 8, SWAP = 16, MOVE = 32, PLACE = 64, OBS = 128, CRASH = 256, GENERIC = 512 };
inline const char* cat_name(int c) {
    switch (c) { case EMPTY: return "EMPTY"; case LIFE: return "LIFE"; case VALUE: return "VALUE"; case FAIL: return "FAIL";
    case SWAP: return "SWAP"; case MOVE: return "MOVE"; case PLACE: return "PLACE"; case OBS: return "OBS"; case CRASH: return "CRASH"; }
    return c & EMPTY ? "EMPTY" : c & VALUE ? "VALUE" : "GENERIC";
}

struct Injected { int point; explicit Injected(int p) : point(p) {} };
struct InjectedAlloc : std::bad_alloc { int point; explicit InjectedAlloc(int p) : point(p) {} };

const int MAXLIVE = 4096, MAXBLK = 4096;

struct World {
    struct Live { const void* p; int tid; } live[MAXLIVE];
    int nlive;
    struct Blk { void* p; std::size_t n; } blk[MAXBLK];
    int nblk;
    bool armed;              // an operation under test is running
    bool alloc_faults;       // allocation failures are injected as well
    int points, fired;       // fault points passed / faults thrown in this operation
    int plan[4], nplan;      // which points throw
    int last_point;          // the point of the last thrown fault
    long copies, moves, allocs, calls;
    int errcat; char err[400];                          // all categories seen; the first message
    struct Err { int cat; char msg[400]; } more[12]; int nmore; bool keep_all;
    void (*yield_hook)();
};
// In a page of its own, so that harness state never overlaps the memory of the code under test.
#ifdef MC_THREADS      // one per thread; lifetimes are left to the sanitizer
World g_world[8]; thread_local int g_me = 0;
inline World& W() { return g_world[g_me]; }
#else
inline World& W() { static World w; return w; }
#endif

inline void error(int cat, const char* fmt, ...) {
    World& w = W();
    if ((w.errcat & cat) == cat && !w.keep_all) return;   // keep the first of each category
    if (!w.errcat) w.nmore = 0;
    if (w.nmore == 12) return;
    World::Err& e = w.more[w.nmore++]; e.cat = w.keep_all ? cat : cat & ~w.errcat;
    va_list ap; va_start(ap, fmt); vsnprintf(e.msg, sizeof e.msg, fmt, ap); va_end(ap);
    if (!w.errcat) memcpy(w.err, e.msg, sizeof w.err);
    w.errcat |= cat;
}

struct NoFault { bool a; NoFault() : a(W().armed) { W().armed = false; } ~NoFault() { W().armed = a; } };
inline void point() {
    World& w = W();
    if (w.yield_hook) w.yield_hook();
    if (!w.armed) return;
    int k = w.points++;
#ifndef MC_NO_EXC
    for (int i = 0; i < w.nplan; ++i)
        if (w.plan[i] == k) { ++w.fired; w.last_point = k; throw Injected(k); }
#endif
    (void)k;
}

inline int find_live(const void* p) { World& w = W(); for (int i = w.nlive - 1; i >= 0; --i) if (w.live[i].p == p) return i; return -1; }
inline bool is_live(const void* p, int tid) { int i = find_live(p); return i >= 0 && W().live[i].tid == tid; }
#ifdef MC_THREADS
inline void born(const void*, int) {}
inline void died(const void*, int) {}
inline void touch(const void*, int, const char*) {}
#else
inline void born(const void* p, int tid) {
    World& w = W();
    int i = find_live(p);
    if (i >= 0) error(LIFE, "object of type %d constructed over a live object of type %d", tid, w.live[i].tid);
    if (w.nlive == MAXLIVE) { error(LIFE, "too many live objects"); return; }
    w.live[w.nlive].p = p; w.live[w.nlive].tid = tid; ++w.nlive;
}
inline void died(const void* p, int tid) {
    World& w = W();
    int i = find_live(p);
    if (i < 0) { error(LIFE, "destructor of type %d run on memory that holds no live object", tid); return; }
    if (w.live[i].tid != tid) error(LIFE, "destructor of type %d run on a live object of type %d", tid, w.live[i].tid);
    w.live[i] = w.live[--w.nlive];
}
inline void touch(const void* p, int tid, const char* what) {
    int i = find_live(p);
    if (i < 0) error(LIFE, "%s: no live object of type %d there", what, tid);
    else if (W().live[i].tid != tid) error(LIFE, "%s: object has type %d, used as type %d", what, W().live[i].tid, tid);
}
#endif

const int V_MOVED = -1, V_DEFAULT = 7, V_DEAD = -77;

// Base of all instrumented content types. TID identifies the type in the registry.
struct Core {
    int val;
    int tid;
    Core(int t, int v, bool nothrow) : val(v), tid(t) { if (!nothrow) point(); born(this, t); }
    struct CopyTag {}; struct MoveTag {};
    Core(CopyTag, int t, const Core& o, bool nothrow) : val(0), tid(t) {
        touch(&o, t, "copy construction from"); if (!nothrow) point(); else if (W().yield_hook) W().yield_hook();
        ++W().copies; val = o.val; born(this, t);
    }
    Core(MoveTag, int t, Core& o, bool nothrow) : val(0), tid(t) {
        touch(&o, t, "move construction from"); if (!nothrow) point(); else if (W().yield_hook) W().yield_hook();
        ++W().moves; val = o.val; o.val = V_MOVED; born(this, t);
    }
    void cassign(const Core& o, bool nothrow) {
        touch(this, tid, "assignment to"); touch(&o, tid, "assignment from");
        if (!nothrow) point(); else if (W().yield_hook) W().yield_hook();
        ++W().copies; val = o.val;
        if (!nothrow) point();
    }
    void massign(Core& o, bool nothrow) {
        touch(this, tid, "move assignment to"); touch(&o, tid, "move assignment from");
        if (!nothrow) point(); else if (W().yield_hook) W().yield_hook();
        ++W().moves;
        if (this != &o) { val = o.val; o.val = V_MOVED; }
        if (!nothrow) point();
    }
    ~Core() { if (W().yield_hook) W().yield_hook(); died(this, tid); val = V_DEAD; }
private:
    Core(const Core&); Core& operator=(const Core&);
};

#define MC_COMMON(NAME) \
    static const int TID = ID + KIND * 64; \
    friend bool operator==(const NAME& a, const NAME& b) { mc::touch(std::addressof(a), TID, "=="); mc::touch(std::addressof(b), TID, "=="); if (mc::W().yield_hook) mc::W().yield_hook(); return a.val == b.val; } \
    friend bool operator<(const NAME& a, const NAME& b) { mc::touch(std::addressof(a), TID, "<"); mc::touch(std::addressof(b), TID, "<"); if (mc::W().yield_hook) mc::W().yield_hook(); return a.val < b.val; } \
    friend std::size_t hash_value(const NAME& a) { mc::touch(std::addressof(a), TID, "hash"); if (mc::W().yield_hook) mc::W().yield_hook(); return std::size_t(a.val + 1000); } \
    template <class O> friend O& operator<<(O& o, const NAME& a) { mc::touch(std::addressof(a), TID, "<<"); if (mc::W().yield_hook) mc::W().yield_hook(); o << a.val; return o; }

// MC_TYPE(name, kind number, default constructor, copy nothrow?, move nothrow?, copy= nothrow?, move= nothrow?)
#define MC_TYPE(NAME, KIND_, DEF, CC, MCN, CA, MA) \
    template <int ID> struct NAME : mc::Core { \
        enum { KIND = KIND_ }; \
        MC_COMMON(NAME) \
        static const char* name() { return #NAME; } \
        DEF(NAME) \
        explicit NAME(int v) : mc::Core(TID, v, false) {} \
        NAME(const NAME& o) noexcept(CC) : mc::Core(CopyTag(), TID, o, CC) {} \
        NAME(NAME&& o) noexcept(MCN) : mc::Core(MoveTag(), TID, o, MCN) {} \
        NAME& operator=(const NAME& o) noexcept(CA) { cassign(o, CA); return *this; } \
        NAME& operator=(NAME&& o) noexcept(MA) { massign(o, MA); return *this; } \
    };
#define MC_DEF_NONE(NAME)
#define MC_DEF_THROW(NAME) NAME() noexcept(false) : mc::Core(TID, mc::V_DEFAULT, false) {}
#define MC_DEF_NOTHROW(NAME) NAME() noexcept : mc::Core(TID, mc::V_DEFAULT, true) {}

MC_TYPE(TT, 1, MC_DEF_NONE, false, false, false, false)
MC_TYPE(NT, 2, MC_DEF_NONE, true, false, false, false)
MC_TYPE(TN, 3, MC_DEF_NONE, false, true, false, true)
MC_TYPE(NN, 4, MC_DEF_NONE, true, true, true, true)
MC_TYPE(TNa, 5, MC_DEF_NONE, false, true, false, false)
MC_TYPE(DTT, 6, MC_DEF_NOTHROW, false, false, false, false)
MC_TYPE(DTN, 7, MC_DEF_NOTHROW, false, true, false, true)
MC_TYPE(DNN, 8, MC_DEF_NOTHROW, true, true, true, true)
MC_TYPE(DNT, 9, MC_DEF_NOTHROW, true, false, false, false)
MC_TYPE(XTT, 10, MC_DEF_THROW, false, false, false, false)
MC_TYPE(XTN, 11, MC_DEF_THROW, false, true, false, true)
MC_TYPE(XNT, 12, MC_DEF_THROW, true, false, false, false)
MC_TYPE(NNa, 13, MC_DEF_NONE, true, true, false, false)
MC_TYPE(AS, 14, MC_DEF_NONE, false, false, true, true)     // construction throws, assignment does not

// copy only (no move members), throwing
template <int ID> struct CO : Core {
    enum { KIND = 20 };
    MC_COMMON(CO)
    static const char* name() { return "CO"; }
    explicit CO(int v) : Core(TID, v, false) {}
    CO(const CO& o) noexcept(false) : Core(CopyTag(), TID, o, false) {}
    CO& operator=(const CO& o) noexcept(false) { cassign(o, false); return *this; }
};
// move only, nothrow
template <int ID> struct MO : Core {
    enum { KIND = 21 };
    MC_COMMON(MO)
    static const char* name() { return "MO"; }
    explicit MO(int v) : Core(TID, v, false) {}
    MO(MO&& o) noexcept : Core(MoveTag(), TID, o, true) {}
    MO& operator=(MO&& o) noexcept { massign(o, true); return *this; }
    MO(const MO&) = delete; MO& operator=(const MO&) = delete;
};
// move only, throwing
template <int ID> struct MOT : Core {
    enum { KIND = 22 };
    MC_COMMON(MOT)
    static const char* name() { return "MOT"; }
    explicit MOT(int v) : Core(TID, v, false) {}
    MOT(MOT&& o) noexcept(false) : Core(MoveTag(), TID, o, false) {}
    MOT& operator=(MOT&& o) noexcept(false) { massign(o, false); return *this; }
    MOT(const MOT&) = delete; MOT& operator=(const MOT&) = delete;
};
// throwing copy and move, with its own nothrow swap found by ADL
template <int ID> struct SW : Core {
    enum { KIND = 23 };
    MC_COMMON(SW)
    static const char* name() { return "SW"; }
    explicit SW(int v) : Core(TID, v, false) {}
    SW(const SW& o) noexcept(false) : Core(CopyTag(), TID, o, false) {}
    SW(SW&& o) noexcept(false) : Core(MoveTag(), TID, o, false) {}
    SW& operator=(const SW& o) noexcept(false) { cassign(o, false); return *this; }
    SW& operator=(SW&& o) noexcept(false) { massign(o, false); return *this; }
    friend void swap(SW& a, SW& b) noexcept { touch(&a, TID, "swap"); touch(&b, TID, "swap"); int t = a.val; a.val = b.val; b.val = t; }
};
// a move that fails after it has taken from its source
template <int ID> struct TM : Core {
    enum { KIND = 26 };
    MC_COMMON(TM)
    static const char* name() { return "TM"; }
    explicit TM(int v) : Core(TID, v, false) {}
    TM(const TM& o) noexcept(false) : Core(CopyTag(), TID, o, false) {}
    TM(TM&& o) noexcept(false) : Core(MoveTag(), TID, o, true) { point(); }
    TM& operator=(const TM& o) noexcept(false) { cassign(o, false); return *this; }
    TM& operator=(TM&& o) noexcept(false) { massign(o, false); return *this; }
};
// an address operator that leads elsewhere, throwing
inline void* decoy() { static long long room[8]; return room; }
template <int ID> struct AMP : Core {
    enum { KIND = 27 };
    MC_COMMON(AMP)
    static const char* name() { return "AMP"; }
    explicit AMP(int v) : Core(TID, v, false) {}
    AMP(const AMP& o) noexcept(false) : Core(CopyTag(), TID, o, false) {}
    AMP(AMP&& o) noexcept(false) : Core(MoveTag(), TID, o, false) {}
    AMP& operator=(const AMP& o) noexcept(false) { cassign(o, false); return *this; }
    AMP& operator=(AMP&& o) noexcept(false) { massign(o, false); return *this; }
    AMP* operator&() { return static_cast<AMP*>(decoy()); }
    const AMP* operator&() const { return static_cast<const AMP*>(decoy()); }
};
// smaller and less aligned than a pointer, throwing
template <int ID> struct SM {
    enum { KIND = 28 };
    MC_COMMON(SM)
    static const char* name() { return "SM"; }
    signed char val;
    explicit SM(int v) : val(static_cast<signed char>(v)) { point(); born(this, TID); }
    SM(const SM& o) noexcept(false) : val(0) { touch(&o, TID, "copy construction from"); point(); ++W().copies; val = o.val; born(this, TID); }
    SM(SM&& o) noexcept(false) : val(0) { touch(&o, TID, "move construction from"); point(); ++W().moves; val = o.val; o.val = V_MOVED; born(this, TID); }
    SM& operator=(const SM& o) noexcept(false) { touch(this, TID, "assignment to"); touch(&o, TID, "assignment from"); point(); ++W().copies; val = o.val; point(); return *this; }
    SM& operator=(SM&& o) noexcept(false) { touch(this, TID, "move assignment to"); touch(&o, TID, "move assignment from"); point(); ++W().moves; if (this != &o) { val = o.val; o.val = V_MOVED; } point(); return *this; }
    ~SM() { if (W().yield_hook) W().yield_hook(); died(this, TID); val = V_DEAD; }
};
// assignment is trivial, construction throws
template <int ID> struct TA {
    enum { KIND = 30 };
    MC_COMMON(TA)
    static const char* name() { return "TA"; }
    int val;
    explicit TA(int v) : val(v) { point(); born(this, TID); }
    TA(const TA& o) noexcept(false) : val(0) { touch(&o, TID, "copy construction from"); point(); ++W().copies; val = o.val; born(this, TID); }
    TA(TA&& o) noexcept(false) : val(0) { touch(&o, TID, "move construction from"); point(); ++W().moves; val = o.val; o.val = V_MOVED; born(this, TID); }
    TA& operator=(const TA&) = default;
    ~TA() { if (W().yield_hook) W().yield_hook(); died(this, TID); val = V_DEAD; }
};
// no operators of its own beyond what the harness needs: neither registered nor counted
#define MC_PLAIN_OPS(NAME, VALUE) \
    static const int TID = ID + KIND * 64; \
    friend bool operator==(const NAME& a, const NAME& b) { (void)a; (void)b; return VALUE(a) == VALUE(b); } \
    friend bool operator<(const NAME& a, const NAME& b) { (void)a; (void)b; return VALUE(a) < VALUE(b); } \
    friend std::size_t hash_value(const NAME& a) { (void)a; return std::size_t(VALUE(a) + 1000); } \
    template <class O> friend O& operator<<(O& o, const NAME& a) { (void)a; o << VALUE(a); return o; }
#define MC_VAL(x) x.val
#define MC_ONE(x) 1
// the destructor is trivial, copies are not: it knows where it lives
template <int ID> struct TD {
    enum { KIND = 31 };
    MC_PLAIN_OPS(TD, MC_VAL)
    static const char* name() { return "TD"; }
    int val; const void* self;
    void here(const char* what) const { if (self != this) error(LIFE, "%s: no live object of type %d there", what, int(TID)); }
    explicit TD(int v) : val(v), self(0) { point(); self = this; }
    TD(const TD& o) noexcept(false) : val(0), self(0) { o.here("copy construction from"); point(); ++W().copies; val = o.val; self = this; }
    TD& operator=(const TD& o) noexcept(false) { here("assignment to"); o.here("assignment from"); point(); ++W().copies; val = o.val; return *this; }
};
// empty, throwing
template <int ID> struct EM {
    enum { KIND = 32 };
    MC_PLAIN_OPS(EM, MC_ONE)
    static const char* name() { return "EM"; }
    explicit EM(int) { point(); born(this, TID); }
    EM(const EM& o) noexcept(false) { touch(&o, TID, "copy construction from"); point(); ++W().copies; born(this, TID); }
    EM& operator=(const EM& o) noexcept(false) { touch(this, TID, "assignment to"); touch(&o, TID, "assignment from"); point(); ++W().copies; return *this; }
    ~EM() { if (W().yield_hook) W().yield_hook(); died(this, TID); }
};
// all trivial
template <int ID> struct TR {
    enum { KIND = 33 };
    MC_PLAIN_OPS(TR, MC_VAL)
    static const char* name() { return "TR"; }
    int val;
};
// constructible from anything, throwing
template <int ID> struct GR : Core {
    enum { KIND = 29 };
    MC_COMMON(GR)
    static const char* name() { return "GR"; }
    explicit GR(int v) : Core(TID, v, false) {}
    template <class T, class = typename std::enable_if<!std::is_same<typename std::decay<T>::type, GR>::value && !std::is_same<typename std::decay<T>::type, int>::value>::type> GR(T&&) : Core(TID, 77, false) {}
    GR(const GR& o) noexcept(false) : Core(CopyTag(), TID, o, false) {}
    GR(GR&& o) noexcept(false) : Core(MoveTag(), TID, o, false) {}
    GR& operator=(const GR& o) noexcept(false) { cassign(o, false); return *this; }
    GR& operator=(GR&& o) noexcept(false) { massign(o, false); return *this; }
};
// large and strictly aligned, throwing
template <int ID> struct BIG : Core {
    enum { KIND = 24 };
    MC_COMMON(BIG)
    static const char* name() { return "BIG"; }
    alignas(32) char pad[96];
    explicit BIG(int v) : Core(TID, v, false) { memset(pad, v, sizeof pad); }
    BIG(const BIG& o) noexcept(false) : Core(CopyTag(), TID, o, false) { memcpy(pad, o.pad, sizeof pad); }
    BIG(BIG&& o) noexcept(false) : Core(MoveTag(), TID, o, false) { memcpy(pad, o.pad, sizeof pad); }
    BIG& operator=(const BIG& o) noexcept(false) { cassign(o, false); memcpy(pad, o.pad, sizeof pad); return *this; }
    BIG& operator=(BIG&& o) noexcept(false) { massign(o, false); memcpy(pad, o.pad, sizeof pad); return *this; }
};
// a record whose member can be assigned into the variant that holds the record
template <int ID, class Inner> struct HOLD : Core {
    enum { KIND = 25 };
    MC_COMMON(HOLD)
    static const char* name() { return "HOLD"; }
    Inner inner;
    explicit HOLD(int v) : Core(TID, v, false), inner(v) {}
    HOLD(const HOLD& o) noexcept(false) : Core(CopyTag(), TID, o, false), inner((NoFault(), o.inner)) {}
    HOLD(HOLD&& o) noexcept(false) : Core(MoveTag(), TID, o, false), inner((NoFault(), std::move(o.inner))) {}
    HOLD& operator=(const HOLD& o) noexcept(false) { cassign1(o); return *this; }
    HOLD& operator=(HOLD&& o) noexcept(false) { cassign1(o); if (this != &o) { o.val = o.inner.val = V_MOVED; } return *this; }
    void cassign1(const HOLD& o) { touch(this, TID, "assignment to"); touch(&o, TID, "assignment from"); touch(&o.inner, Inner::TID, "assignment from"); point(); val = o.val; inner.val = o.inner.val; }
};

// --- heap ledger -------------------------------------------------------------------------------
inline void* ledger_new(std::size_t n, std::size_t align, bool nothrow) {
    World& w = W();
    if (w.armed) {
        if (w.yield_hook) w.yield_hook();
        if (w.alloc_faults) {
            int k = w.points++;
#ifndef MC_NO_EXC
            for (int i = 0; i < w.nplan; ++i)
                if (w.plan[i] == k) { ++w.fired; w.last_point = k; if (nothrow) return 0; throw InjectedAlloc(k); }
#endif
            (void)k; (void)nothrow;
        }
    }
#ifndef __cpp_aligned_new
    if (n && n % 32 == 0) align = n % 64 ? 32 : 64;      // before C++17 plain new serves over-aligned types too; that is not judged
#endif
    void* p = 0;
    if (align <= 16) p = malloc(n ? n : 1); else if (posix_memalign(&p, align, n)) abort();
    if (!p) abort();
    if (w.armed) {
        ++w.allocs;
        memset(p, 0xA5, n);
        if (w.nblk < MAXBLK) { w.blk[w.nblk].p = p; w.blk[w.nblk].n = n; ++w.nblk; }
    }
    return p;
}
inline void ledger_delete(void* p) {
    if (!p) return;
    World& w = W();
    for (int i = w.nblk - 1; i >= 0; --i) if (w.blk[i].p == p) { w.blk[i] = w.blk[--w.nblk]; break; }
    free(p);
}

// --- running operations ------------------------------------------------------------------------
struct Arm {
    explicit Arm(const int* plan, int n) {
        World& w = W();
        w.points = w.fired = 0; w.nplan = n; w.last_point = -1;
        for (int i = 0; i < n; ++i) w.plan[i] = plan[i];
        w.copies = w.moves = w.allocs = w.calls = 0;
        w.armed = true;
    }
    ~Arm() { W().armed = false; }
};
struct ArmQuiet {   // track allocations and releases without touching the counters of the operation before
    ArmQuiet() { W().nplan = 0; W().armed = true; }
    ~ArmQuiet() { W().armed = false; }
};

// --- results, shared with the parent process -----------------------------------------------------
struct Shared {
    volatile int phase;         // what the child is doing: 0 idle, 1 operation, 2 observation, 3 destruction, 4 done
    volatile int fired;
    char where[4000];           // the running case, as text
    char op[200];               // its last operation
    char human[2000];           // the running case, for people
    long stats[16];
    int ntext; char text[1 << 20];
    volatile int incomplete;
    volatile long progress;
};
inline Shared*& shared() { static Shared* s = 0; return s; }
inline void init_shared() {
    shared() = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shared() == MAP_FAILED) { perror("mmap"); exit(2); }
}
inline void emit(const char* fmt, ...) {
    Shared* s = shared();
    va_list ap; va_start(ap, fmt);
    int room = int(sizeof s->text) - s->ntext - 1;
    if (room > 0) { int n = vsnprintf(s->text + s->ntext, room, fmt, ap); if (n > 0) s->ntext += n < room ? n : room - 1; }
    va_end(ap);
}

inline std::string esc(const std::string& s) {
    std::string o;
    for (std::size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}
// One JSON line per finding; the driver reads them.
inline void violation(int cat, const std::string& op, int fired, const std::string& msg, const std::string& trace) {
    emit("{\"violation\":\"%s\",\"op\":\"%s\",\"fired\":%d,\"msg\":\"%s\",\"trace\":\"%s\"}\n", cat_name(cat), esc(op).c_str(), fired, esc(msg).c_str(), esc(trace).c_str());
}

inline void put(char* dst, std::size_t n, const std::string& s) { strncpy(dst, s.c_str(), n - 1); dst[n - 1] = 0; }
// Announces the case that is about to run.
inline void begin_case(const std::string& where, const std::string& op, const std::string& human, int fired = 0) {
    Shared* s = shared();
    put(s->where, sizeof s->where, where); put(s->op, sizeof s->op, op); put(s->human, sizeof s->human, human);
    s->fired = fired; s->phase = 1; s->progress++;
}
// Runs body in a child process; a crash (signal, terminate, sanitizer report, hang) is recorded as a
// violation of the case named in Shared::where, which is skipped when the body is started again.
template <class Body> void isolate(const std::string& name, Body body, int max_crashes, int stall_s = 30) {
    if (!shared()) init_shared();
    Shared* sh = shared();
    std::set<std::string> skip;
    std::string crashes;
    for (int n = 0;; ++n) {
        sh->ntext = 0; sh->text[0] = 0; sh->phase = 0; sh->incomplete = 0; sh->fired = 0; sh->where[0] = sh->op[0] = sh->human[0] = 0; sh->progress = 0;
        fflush(stdout);
        char errname[] = "/tmp/mc_err_XXXXXX";
        int efd = mkstemp(errname);
        unlink(errname);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); exit(2); }
        if (!pid) { if (efd >= 0) { dup2(efd, 2); } body(skip); _exit(0); }
        int st = 0; long last = -1; int idle = 0; bool hung = false;
        for (;;) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            usleep(idle || sh->progress > 2000 ? 20000 : 2000);
            if (sh->progress != last) { last = sh->progress; idle = 0; }
            else if (++idle > stall_s * 50) { hung = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { if (efd >= 0) close(efd); break; }
        char tail[1200]; tail[0] = 0;
        if (efd >= 0) { lseek(efd, 0, SEEK_SET); int k = int(read(efd, tail, sizeof tail - 1)); tail[k > 0 ? k : 0] = 0; close(efd); }
        std::string how = hung ? "no progress (hang)" : WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
        static const char* ph[] = { "outside the operation", "during the operation", "while the result was observed", "during destruction" };
        sh->text[sh->ntext] = 0;
        std::string keep = sh->text;
        sh->ntext = 0;
        violation(CRASH, sh->op, sh->fired, std::string("crash ") + ph[sh->phase & 3] + ": " + how + " " + tail + " -- case: " + sh->human, sh->where);
        crashes += sh->text;
        skip.insert(sh->where);
        if (n >= max_crashes || !sh->where[0]) {
            fputs(keep.c_str(), stdout); fputs(crashes.c_str(), stdout);
            printf("{\"stats\":\"%s\",\"states\":0,\"transitions\":%ld,\"complete\":false}\n", name.c_str(), sh->progress);
            fflush(stdout);
            return;
        }
    }
    sh->text[sh->ntext] = 0;
    fputs(crashes.c_str(), stdout);
    fputs(sh->text, stdout);
    fflush(stdout);
}

template <class Set> unsigned long long digest(const Set& s) {
    unsigned long long h = 1469598103934665603ull;
    for (typename Set::const_iterator i = s.begin(); i != s.end(); ++i) {
        for (std::size_t k = 0; k < i->size(); ++k) { h ^= (unsigned char)(*i)[k]; h *= 1099511628211ull; }
        h ^= 10; h *= 1099511628211ull;
    }
    return h;
}

// --dump: every outcome, for comparing configurations
template <class Set> void dump_outcomes(int argc, char** argv, const std::string& name, const Set& s) {
    for (int a = 1; a < argc; ++a) if (!strcmp(argv[a], "--dump")) {
        for (typename Set::const_iterator i = s.begin(); i != s.end(); ++i) printf("OUT %s\t%s\n", name.c_str(), i->c_str());
        fflush(stdout);
    }
}

} // namespace mc

#ifdef MC_MAIN
#ifdef MC_NO_EXC
namespace boost {
struct source_location;
[[noreturn]] void throw_exception(const std::exception&) { abort(); }
[[noreturn]] void throw_exception(const std::exception&, const source_location&) { abort(); }
}
#endif
void* operator new(std::size_t n) { return mc::ledger_new(n, 0, false); }
void* operator new[](std::size_t n) { return mc::ledger_new(n, 0, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return mc::ledger_new(n, 0, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return mc::ledger_new(n, 0, true); }
void operator delete(void* p) noexcept { mc::ledger_delete(p); }
void operator delete[](void* p) noexcept { mc::ledger_delete(p); }
void operator delete(void* p, std::size_t) noexcept { mc::ledger_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { mc::ledger_delete(p); }
#if __cplusplus >= 201703L
void* operator new(std::size_t n, std::align_val_t a) { return mc::ledger_new(n, std::size_t(a), false); }
void* operator new[](std::size_t n, std::align_val_t a) { return mc::ledger_new(n, std::size_t(a), false); }
void operator delete(void* p, std::align_val_t) noexcept { mc::ledger_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { mc::ledger_delete(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { mc::ledger_delete(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { mc::ledger_delete(p); }
#endif
#endif
#endif
