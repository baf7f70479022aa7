// Small stateless / explicit-state explorer that runs the REAL library code.
//
// A scenario body receives a Ctx and asks it for every nondeterministic choice
// (`pick`).  The explorer enumerates every choice sequence by re-execution,
// optionally merging states whose full canonical key was already explored with
// at least as much remaining depth (`visited`).
//
// The current choice sequence lives in an mmap()ed file, so a crash, sanitizer
// abort or hang still leaves the exact history behind for the runner.
#pragma once

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mc {

struct Violation { std::string msg; };

struct Shared            // layout known to run.py
{
    uint32_t magic;
    uint32_t bound;      // depth bound in force
    uint32_t len;        // picks made so far in this execution
    uint32_t running;    // 1 while inside a body
    uint64_t executions;
    uint16_t choice[4096];
};

struct Ctx
{
    Shared* sh;
    int bound = 1;                 // depth bound for this round
    int thorough = 0;
    bool replaying = false;        // verbose, prints log
    std::vector<uint16_t> prefix;  // choices to force
    std::vector<uint16_t> arity;   // arity at each pick of this execution
    int shard_i = 0, shard_n = 1;
    // statistics
    uint64_t executions = 0, transitions = 0, pruned = 0, checks = 0;
    std::unordered_map<std::string, int> seen;
    std::unordered_set<uint64_t> outcomes;
    std::unordered_set<uint64_t> states;
    std::vector<std::string> samples;
    std::string oplog;
    bool logging = false;
    std::string pending;           // soft failure recorded where throwing is impossible
    bool force_shardless = false;

    int pick(int n)
    {
        if(n <= 0 || n > 65535) { fprintf(stderr, "mc: pick(%d)\n", n); abort(); }
        if(n == 1) return 0;
        uint32_t p = sh->len;
        if(p >= 4096) { fprintf(stderr, "mc: history too long\n"); abort(); }
        int c;
        if(p < prefix.size())
        {
            c = prefix[p];
            if(c >= n) { fprintf(stderr, "mc: replay diverged (choice %d of %d at %u)\n", c, n, p); _Exit(70); }
        }
        else { c = 0; ++transitions; }
        arity.push_back((uint16_t)n);
        sh->choice[p] = (uint16_t)c;
        sh->len = p + 1;
        return c;
    }
    bool flip() { return pick(2) != 0; }

    // pick from a list
    template <class T, size_t N> const T& of(const T (&a)[N]) { return a[pick((int)N)]; }
    template <class T> const T& of(const std::vector<T>& a) { return a[pick((int)a.size())]; }

    void log(const char* f, ...) __attribute__((format(printf, 2, 3)))
    {
        if(!logging) return;
        char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
        oplog += b; oplog += '\n';
        if(replaying) { fputs(b, stdout); fputc('\n', stdout); fflush(stdout); }
    }

    [[noreturn]] void fail(const char* f, ...) __attribute__((format(printf, 2, 3)))
    {
        char b[1024]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
        fprintf(stderr, "mc: %s\n", b);
        throw Violation{b};
    }
    void soft(const char* f, ...) __attribute__((format(printf, 2, 3)))
    {
        char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
        if(pending.empty()) pending = b;
    }
    void flush() { ++checks; if(!pending.empty()) { std::string m; m.swap(pending); throw Violation{m}; } }

    static uint64_t h64(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
    {
        auto c = (const unsigned char*)p;
        while(n--) { h ^= *c++; h *= 1099511628211ull; h ^= h >> 29; }
        return h;
    }
    // An observation made on the real code: only used for counting distinct outcomes
    void observe(const std::string& s) { outcomes.insert(h64(s.data(), s.size())); }
    void observe(uint64_t v) { outcomes.insert(h64(&v, sizeof v)); }

    // State merge.  `left` = number of operations still to be explored below this state.
    // The key must determine every future of the execution.
    bool visited(const std::string& key, int left)
    {
        states.insert(h64(key.data(), key.size()));
        if(sh->len < prefix.size()) return false;       // inside the replayed prefix
        if(replaying) return false;
        auto it = seen.find(key);
        if(it == seen.end()) { seen.emplace(key, left); return false; }
        if(it->second >= left) { ++pruned; return true; }
        it->second = left;
        return false;
    }
    void state(const std::string& key) { states.insert(h64(key.data(), key.size())); }
};

typedef void (*Body)(Ctx&);

struct Scenario { const char* name; Body body; int quick, thorough; int shards_q, shards_t; };

inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
struct Reg { Reg(const char* n, Body b, int q, int t, int sq, int st) { scenarios().push_back({n, b, q, t, sq, st}); } };

#define MC_CAT2(a,b) a##b
#define MC_CAT(a,b) MC_CAT2(a,b)
// quick/thorough depth bound
#define SCENARIO(nm, q, t) \
    static void MC_CAT(sc_,nm)(mc::Ctx&); \
    static mc::Reg MC_CAT(reg_,nm)(#nm, MC_CAT(sc_,nm), q, t, 1, 1); \
    static void MC_CAT(sc_,nm)(mc::Ctx& c)
#define SCENARIO_SHARDED(nm, q, t, sq, st) \
    static void MC_CAT(sc_,nm)(mc::Ctx&); \
    static mc::Reg MC_CAT(reg_,nm)(#nm, MC_CAT(sc_,nm), q, t, sq, st); \
    static void MC_CAT(sc_,nm)(mc::Ctx& c)
// register a function template instance
#define SCENARIO_FN(nm, fn, q, t) static mc::Reg MC_CAT(reg_,nm)(#nm, fn, q, t, 1, 1)
#define SCENARIO_FN_SHARDED(nm, fn, q, t, sq, st) static mc::Reg MC_CAT(reg_,nm)(#nm, fn, q, t, sq, st)

#define CHECK(cond, ...) do { ++c.checks; if(!(cond)) c.fail(__VA_ARGS__); } while(0)

extern Ctx* current;   // context of the running execution (for Tracked etc)

// ---------------------------------------------------------------------------
// Lifetime-tracked element type.  Any use of a dead object, double destroy,
// construction over a live object or leak is recorded as a soft failure.
struct Life
{
    // address -> alive
    std::unordered_map<const void*, int> live;
    long ctors = 0, dtors = 0;
    // fault injection: throw on the n-th construction/assignment (0 = off)
    long throw_at = 0;
    bool overwrite_ok = false;
    void reset() { live.clear(); ctors = dtors = 0; throw_at = 0; overwrite_ok = false; }
};
extern Life life;
struct Boom { int v; };

template <int Tag = 0>
struct TrackedT
{
    int v;
    static void born(const void* p)
    {
        if(life.throw_at && --life.throw_at == 0) throw Boom{1};
        ++life.ctors;
        if(!life.live.emplace(p, 1).second && !life.overwrite_ok)
            if(current) current->soft("object constructed over a live object");
    }
    static void use(const void* p, const char* what)
    {
        if(!life.live.count(p) && current) current->soft("%s a dead or never constructed object", what);
    }
    TrackedT() : v(0) { born(this); }
    TrackedT(int v_) : v(v_) { born(this); }
    TrackedT(int a, int b) : v(a * 100 + b) { born(this); }
    TrackedT(const TrackedT& o) : v(o.v) { use(&o, "copy from"); born(this); }
    TrackedT(TrackedT&& o) : v(o.v) { use(&o, "move from"); born(this); o.v = -77; }
    TrackedT& operator=(const TrackedT& o)
    {
        use(&o, "copy-assign from"); use(this, "assign to");
        if(life.throw_at && --life.throw_at == 0) throw Boom{2};
        v = o.v; return *this;
    }
    TrackedT& operator=(TrackedT&& o)
    {
        use(&o, "move-assign from"); use(this, "assign to");
        if(life.throw_at && --life.throw_at == 0) throw Boom{2};
        if(this != &o) { v = o.v; o.v = -77; } return *this;
    }
    ~TrackedT()
    {
        ++life.dtors;
        if(!life.live.erase(this) && current) current->soft("destroyed an object that is not alive");
        v = -99;
    }
    friend bool operator==(const TrackedT& a, const TrackedT& b) { return a.v == b.v; }
    friend bool operator!=(const TrackedT& a, const TrackedT& b) { return a.v != b.v; }
    friend bool operator<(const TrackedT& a, const TrackedT& b) { return a.v < b.v; }
    friend bool operator>(const TrackedT& a, const TrackedT& b) { return a.v > b.v; }
};
typedef TrackedT<0> Tracked;

// Values that can only be moved.  A library that stops accepting them makes a harness fail to build;
// the runner then builds it once more with MC_NO_MOVES, and reports that difference.
#ifdef MC_NO_MOVES
template <class T> using Owner = std::shared_ptr<T>;
template <class T> using Moved = T;
#else
template <class T> using Owner = std::unique_ptr<T>;
template <class T> using Moved = T&&;
#endif

// Storage at a fixed address, pre-filled with a pattern, so that reads of
// uninitialised members are deterministic and depend on the pattern.
// red zones around it are poisoned when ASan is on.
template <class T, int Slot = 0>
struct Fixed
{
    static unsigned char* raw()
    {
        alignas(64) static unsigned char buf[sizeof(T) + 128];
        return buf + 64;
    }
    static void fill(unsigned char pattern) { memset(raw() - 64, pattern, sizeof(T) + 128); zone = pattern; }
    static unsigned char zone;
    // bytes around the object must be untouched
    static bool intact()
    {
        for(int i = 0; i < 64; i++) if(raw()[-1 - i] != zone || raw()[sizeof(T) + i] != zone) return false;
        return true;
    }
    template <class... A> static T* make(A&&... a) { return new (raw()) T(std::forward<A>(a)...); }
    static T* make_default() { return new (raw()) T; }
    static std::string bytes() { return std::string((const char*)raw(), sizeof(T)); }
};
template <class T, int Slot> unsigned char Fixed<T, Slot>::zone = 0;

// destroys on scope exit
template <class T>
struct Own { T* p; explicit Own(T* p) : p(p) {} Own(const Own&) = delete; ~Own() { if(p) p->~T(); } T* operator->() { return p; } T& operator*() { return *p; }
    void kill() { if(p) { T* q = p; p = nullptr; q->~T(); } } };

inline std::string show(const std::string& s)
{
    std::string r = "\"";
    for(unsigned char ch : s)
    {
        if(ch >= 32 && ch < 127 && ch != '"' && ch != '\\') r += (char)ch;
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
    }
    return r + "\"";
}
template <class V> inline std::string show_seq(const V& v)
{
    std::string r = "[";
    for(auto& x : v) { if(r.size() > 1) r += ","; r += std::to_string((long long)x); }
    return r + "]";
}

int main_(int argc, char** argv);

} // namespace mc
