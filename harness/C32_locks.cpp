// Property C32: a mutex is held through a lock exactly from taking it until giving it back, at the latest when the lock goes away.
// ALSO: DEVICE
#include <estd/chrono.h>
#include <estd/mutex.h>
#include "mc.h"
using namespace mc;

// a mutex that knows who holds it, and faults what a real one leaves undefined; somebody else may hold it too
struct Mutex
{
    enum { free_, ours, theirs } st = free_; int locks = 0, unlocks = 0; int gives_up_after = 0; long waited = -1;
    void lock() { if(st != free_) mc::current->fail("deadlock: locked while %s", st == ours ? "held by us" : "held by somebody else, who never gives it back"); st = ours; locks++; }
    bool try_lock() { if(st == ours) mc::current->fail("recursive: tried while held by us"); if(st == theirs) return false; st = ours; locks++; return true; }
    template <class R, class P> bool try_lock_for(const estd::chrono::duration<R, P>& d) { waited = (long)estd::chrono::milliseconds(d).count(); if(st == theirs && waited >= gives_up_after && gives_up_after) st = free_; return try_lock(); }
    void unlock() { if(st != ours) mc::current->fail("unlock: of a mutex %s", st == free_ ? "nobody holds" : "somebody else holds"); st = free_; unlocks++; }
    ~Mutex() {}
};
typedef estd::unique_lock<Mutex> UL;

static void histories(Ctx& c)
{
    Mutex m[2];
    struct Place { alignas(UL) unsigned char b[sizeof(UL)]; void* raw() { return b; } UL& operator*() { return *(UL*)b; } UL* operator->() { return (UL*)b; } };
    struct Slot { Place u; bool there = false; int on = -1; bool owns = false; } s[2];
    auto agree = [&](const char* after)
    {
        for(int i = 0; i < 2; i++)
        {
            bool want = false; for(auto& x : s) if(x.there && x.on == i && x.owns) want = true;
            bool got = m[i].st == Mutex::ours;
            if(got != want) c.fail("held: after %s mutex %d is %s, expected %s", after, i, got ? "held" : "not held", want ? "held" : "not held");
            c.observe(got);
        }
        for(auto& x : s) if(x.there)
        {
            UL& u = *x.u;
            CHECK(u.mutex() == (x.on < 0 ? nullptr : &m[x.on]), "mutex: after %s the lock refers to another mutex", after);
            CHECK(u.owns_lock() == x.owns, "owns: after %s the lock says it %s the mutex", after, x.owns ? "does not own" : "owns");
        }
    };
    for(int d = 0; d < c.bound; d++)
    {
        int k = c.pick(2); auto& x = s[k];
        int op = c.pick(10);
        char name[96]; snprintf(name, sizeof name, "?");
        if(!x.there)
        {
            int i = c.pick(2); auto& mm = m[i];
            if(op < 6)
            {
                switch(op)
                {
                    case 0: if(i) return; snprintf(name, sizeof name, "lock%d()", k); new(x.u.raw()) UL(); x.on = -1; x.owns = false; break;
                    case 1: if(mm.st != Mutex::free_) return; snprintf(name, sizeof name, "lock%d(m%d)", k, i); new(x.u.raw()) UL(mm); x.on = i; x.owns = true; break;
                    case 2: snprintf(name, sizeof name, "lock%d(m%d, defer)", k, i); new(x.u.raw()) UL(mm, estd::defer_lock_t{}); x.on = i; x.owns = false; break;
                    case 3: if(mm.st != Mutex::free_) return; snprintf(name, sizeof name, "lock%d(m%d, adopt)", k, i); mm.lock(); new(x.u.raw()) UL(mm, estd::adopt_lock_t{}); x.on = i; x.owns = true; break;
                    case 4: if(mm.st == Mutex::ours) return; snprintf(name, sizeof name, "lock%d(m%d, try)", k, i); x.owns = mm.st == Mutex::free_; new(x.u.raw()) UL(mm, estd::try_to_lock_t{}); x.on = i; break;
                    case 5: if(mm.st == Mutex::ours) return; { int p = c.pick(2); mm.gives_up_after = p ? 5 : 0; snprintf(name, sizeof name, "lock%d(m%d, 5 ms%s)", k, i, p ? ", in which it becomes free" : ""); x.owns = mm.st == Mutex::free_ || p; new(x.u.raw()) UL(mm, estd::chrono::milliseconds(5)); x.on = i; CHECK(mm.waited == 5, "waited: %ld ms", mm.waited); } break;
                }
                x.there = true;
            }
            else if(op == 6) { if(mm.st != Mutex::free_) return; snprintf(name, sizeof name, "somebody else takes m%d", i); mm.st = Mutex::theirs; }
            else if(op == 7) { if(mm.st != Mutex::theirs) return; snprintf(name, sizeof name, "somebody else gives m%d back", i); mm.st = Mutex::free_; }
            else if(op == 8)
            {
                // a plain guard over a piece of work
                if(mm.st != Mutex::free_) return; snprintf(name, sizeof name, "guarded work on m%d", i);
                bool thrown = c.flip();
                try { estd::lock_guard<Mutex> g(mm); CHECK(mm.st == Mutex::ours, "held: not within a guard"); if(thrown) throw 1; } catch(int) {}
            }
            else return;
        }
        else
        {
            UL& u = *x.u; Mutex* mm = x.on < 0 ? nullptr : &m[x.on];
            switch(op)
            {
                case 0: case 1: snprintf(name, sizeof name, "end of lock%d", k); u.~UL(); x.there = false; break;
                case 2: if(!mm || mm->st != Mutex::free_) return; snprintf(name, sizeof name, "lock%d.lock()", k); u.lock(); x.owns = true; break;
                case 3: if(!mm || !x.owns) return; snprintf(name, sizeof name, "lock%d.unlock()", k); u.unlock(); x.owns = false; break;
                case 4:
                {
                    snprintf(name, sizeof name, "lock%d.release()", k); bool owned = x.owns; auto r = u.release();
                    CHECK(r == mm, "release: gave back another mutex");
                    x.on = -1; x.owns = false;
                    if(owned) { CHECK(mm->st == Mutex::ours, "release: unlocked the mutex"); mm->unlock(); }
                    break;
                }
                case 5: if(!mm || mm->st == Mutex::ours) return; { snprintf(name, sizeof name, "lock%d.try_lock()", k); bool w = mm->st == Mutex::free_, g = u.try_lock(); CHECK(g == w, "try_lock: said %d", g); x.owns = w; } break;
                case 6: if(!mm || mm->st == Mutex::ours) return; { int p = c.pick(2); mm->gives_up_after = p ? 7 : 0; snprintf(name, sizeof name, "lock%d.try_lock_for(7 ms%s)", k, p ? ", in which it becomes free" : ""); bool w = mm->st == Mutex::free_ || p, g = u.try_lock_for(estd::chrono::milliseconds(7)); CHECK(g == w, "try_lock_for: said %d", g); CHECK(mm->waited == 7, "waited: %ld ms", mm->waited); x.owns = w; } break;
                default: return;
            }
        }
        c.log("%s", name);
        agree(name);
        std::string key; for(auto& x : s) key += char('a' + (x.there ? 1 + (x.on + 1) * 2 + x.owns : 0)); for(auto& mm : m) key += char('0' + mm.st);
        c.state(key);
        if(c.visited(key, c.bound - d - 1)) break;
    }
    for(auto& x : s) if(x.there) { x.u->~UL(); x.there = false; }
    agree("the end of everything");
    for(int i = 0; i < 2; i++) CHECK(m[i].locks == m[i].unlocks, "count: mutex %d was locked %d and unlocked %d times", i, m[i].locks, m[i].unlocks);
}
SCENARIO_FN(lock_histories, histories, 9, 14);

// a mutex whose operations may fail with an exception: what was not taken is not owned, and never given back
struct Failing
{
    bool held = false; int fails = 0; 
    void trouble() { if(fails) throw 7; }
    void lock() { trouble(); if(held) mc::current->fail("deadlock: locked twice"); held = true; }
    bool try_lock() { trouble(); if(held) return false; return held = true; }
    template <class R, class P> bool try_lock_for(const estd::chrono::duration<R, P>&) { return try_lock(); }
    void unlock() { if(!held) mc::current->fail("unlock: of a mutex nobody holds"); held = false; }
};
SCENARIO(locks_that_fail, 4, 6)
{
    Failing m; { int how = c.pick(5); m.fails = c.flip(); bool threw = false, fails = m.fails; typedef estd::unique_lock<Failing> L; c.log("made %d, %s", how, fails ? "failing" : "succeeding");
    auto work = [&](L& l, bool owns)
    {
        for(int d = 0; d < c.bound; d++)
        {
            CHECK(l.owns_lock() == owns && m.held == owns, "owns: %d, the mutex is %s", (int)l.owns_lock(), m.held ? "held" : "not held"); if(c.visited(std::to_string(owns) + std::to_string(how), c.bound - d)) break;
            int op = c.pick(4); m.fails = c.flip(); bool was = m.fails, t = false;
            try { switch(op) { case 0: if(owns) return; l.lock(); break; case 1: if(owns) return; CHECK(l.try_lock(), "try: refused"); break; case 2: if(owns) return; CHECK(l.try_lock_for(estd::chrono::milliseconds(3)), "try: refused"); break; case 3: if(!owns) return; m.fails = 0; was = false; l.unlock(); owns = false; continue; } } catch(int) { t = true; }
            CHECK(t == was, "fails: %s", t ? "an exception nobody threw" : "the exception is lost"); if(!t) owns = true; m.fails = 0;
        }
    };
    try { switch(how) { case 0: { L l(m); work(l, true); break; } case 1: { L l(m, estd::try_to_lock_t{}); work(l, true); break; } case 2: { L l(m, estd::chrono::milliseconds(2)); work(l, true); break; } case 3: { estd::lock_guard<Failing> g(m); CHECK(m.held, "guard: not held"); break; } case 4: { m.fails = fails = false; L l(m, estd::defer_lock_t{}); work(l, false); break; } } } catch(int) { threw = true; }
    CHECK(threw == fails, "fails: %s", threw ? "an exception nobody threw" : "the exception is lost"); CHECK(!m.held, "held: after its lock is gone"); c.observe(how); }
}
