// Property C40: the FreeRTOS wrappers are the kernel's objects, no more and no less.
// FLAGS: -DESTD_OS_FREERTOS=1 -I$VERIF/harness/freertos
#include <estd/mutex.h>
#include <estd/semaphore.h>
#include <estd/chrono.h>
#include <estd/thread.h>
#include <estd/port/freertos/queue.h>
#include <estd/port/freertos/timer.h>
#include <estd/port/freertos/event_groups.h>
#include <estd/port/freertos/wrapper/task.h>
#include <estd/functional.h>
#include "mc.h"
#include "freertos/kernel.h"
using namespace mc;
namespace rtos = estd::freertos; namespace ch = estd::chrono;
typedef ch::freertos_clock::duration Ticks;
static const long rate = configTICK_RATE_HZ;

// times to wait, each in units of its own, with the whole ticks that fit
struct Wait { const char* name; long long num, den, count; TickType_t ticks() const { return (TickType_t)((__int128)count * num * rate / den); } };
static const std::vector<Wait> waits = {{"0 s", 1, 1, 0}, {"1 s", 1, 1, 1}, {"7 s", 1, 1, 7}, {"0 ms", 1, 1000, 0}, {"1 ms", 1, 1000, 1}, {"9 ms", 1, 1000, 9}, {"10 ms", 1, 1000, 10}, {"999 ms", 1, 1000, 999}, {"1500 ms", 1, 1000, 1500}, {"20000 us", 1, 1000000, 20000}, {"2 min", 60, 1, 2}, {"5 ticks", 1, rate, 5}};
template <class F> static void with(const Wait& w, F f)
{
    if(!strcmp(w.name, "5 ticks")) f(Ticks(w.count)); else if(w.num == 60) f(ch::minutes(w.count)); else if(w.den == 1) f(ch::seconds(w.count)); else if(w.den == 1000) f(ch::milliseconds(w.count)); else f(ch::microseconds(w.count));
}
// the object under test, within storage that tells of any write outside
template <class T> struct Held
{
    typedef Fixed<T, 0> F; T* p; unsigned before;
    template <class... A> explicit Held(A&&... a) { F::fill(0xA5); kernel.begin(); before = kernel.living(); p = F::make(std::forward<A>(a)...); }
    KernelObject& born(Ctx& c, Kind k, bool within) { CHECK(kernel.living() == before + 1, "made: %u kernel objects for one", kernel.living() - before); KernelObject& o = *kernel.all.back(); CHECK(o.kind == k, "made: a %s, expected a %s", kind_name[o.kind], kind_name[k]); char* s = (char*)o.storage; CHECK(within ? s >= (char*)p && s + sizeof(StaticStorage) <= (char*)(p + 1) : !s, "storage: %s", within ? "not the object's own" : "given, none was to be"); return o; }
    void die(Ctx& c, KernelObject& o) { kernel.begin(); p->~T(); CHECK(!o.alive, "ended: the %s was not given back", kind_name[o.kind]); CHECK(kernel.living() == before, "ended: %u kernel objects are left", kernel.living() - before); CHECK(F::intact(), "outside: wrote outside the object"); }
    void intact(Ctx& c) { CHECK(F::intact(), "outside: wrote outside the object"); }
    T* operator->() { return p; }
};
static void waited(Ctx& c, bool should, TickType_t ticks) { CHECK(kernel.ticks == ticks, "time: would wait %u ticks, expected %u", (unsigned)kernel.ticks, (unsigned)ticks); CHECK(kernel.waited == should, "wait: %s", should ? "did not" : "did"); }

// ---- mutexes, taken by two tasks
template <class M, class = void> struct Timed : std::false_type {}; template <class M> struct Timed<M, std::void_t<decltype(std::declval<M&>().try_lock_for(ch::seconds(1)))>> : std::true_type {};
template <class M, bool recursive, bool within, bool binary> static void mutexes(Ctx& c)
{
    kernel.reset(); Held<M> m = []{ if constexpr(binary) return Held<M>(true); else return Held<M>(); }(); KernelObject& o = m.born(c, recursive ? Recursive : binary ? Binary : Mutex, within);
    CHECK((SemaphoreHandle_t)m->native_handle() == &o, "native: not the kernel's");
    int holder = -1, depth = 0; if(binary) holder = 2;      // a binary semaphore starts out taken
    for(int d = 0; d < c.bound; d++)
    {
        kernel.task = c.pick(2); int me = kernel.task; kernel.begin(); bool mine = holder == me, freely = holder < 0 || (recursive && mine);
        // somebody else is able to help only with a mutex that is not held by the one who waits
        bool helpless = !recursive && mine && !binary;
        auto took = [&](bool r, bool want) { CHECK(r == want, "taken: %d, expected %d; task %d, held by %d", r, want, me, holder); if(r) { depth = recursive && mine ? depth + 1 : 1; holder = me; } };
        switch(c.pick(Timed<M>::value ? 4 : 3))
        {
            case 0: if(helpless) { d = c.bound; break; } c.log("task %d: lock", me); m->lock(); waited(c, !freely, portMAX_DELAY); took(true, true); break;
            case 1: { c.log("task %d: try_lock", me); bool r = m->try_lock(); waited(c, false, 0); took(r, freely); break; }
            case 2: { if(!mine && !(binary && holder == 2) && !recursive && holder >= 0) break; c.log("task %d: unlock", me); bool r = m->unlock(); bool want = recursive ? mine : holder >= 0; CHECK(r == want, "given: %d, expected %d; task %d, held by %d", r, want, me, holder); if(r && --depth <= 0) holder = -1; break; }
            case 3: if constexpr(Timed<M>::value) { if(helpless) break; const Wait& w = c.of(waits); c.log("task %d: try_lock_for %s", me, w.name); bool r = false; with(w, [&](auto t) { r = m->try_lock_for(t); }); waited(c, !freely && w.ticks() > 0, w.ticks()); took(r, freely || kernel.rescued); } break;
        }
        m.intact(c); int now = o.kind == Binary ? (o.count ? -1 : holder < 0 ? 9 : holder) : o.holder; CHECK(now == holder, "held: by %d, expected %d", now, holder); if(recursive) CHECK(o.holder < 0 || o.depth == depth, "held: %d times, expected %d", o.depth, depth);
        if(c.visited(std::to_string(holder) + "," + std::to_string(depth), c.bound - d)) break;
    }
    c.observe(std::to_string(holder) + "," + std::to_string(depth)); m.die(c, o);
}
static void m1(Ctx& c) { mutexes<estd::mutex, false, false, false>(c); } static void m2(Ctx& c) { mutexes<rtos::mutex<true>, false, true, false>(c); } static void m3(Ctx& c) { mutexes<estd::timed_mutex, false, false, false>(c); } static void m4(Ctx& c) { mutexes<rtos::timed_mutex<true>, false, true, false>(c); }
static void m5(Ctx& c) { mutexes<estd::recursive_mutex, true, false, false>(c); } static void m6(Ctx& c) { mutexes<rtos::recursive_mutex<true>, true, true, false>(c); } static void m7(Ctx& c) { mutexes<estd::mutex, false, false, true>(c); } static void m8(Ctx& c) { mutexes<rtos::mutex<true>, false, true, true>(c); } static void m9(Ctx& c) { mutexes<rtos::timed_mutex<true>, false, true, true>(c); }
SCENARIO_FN(mutex_dynamic, m1, 8, 12);
SCENARIO_FN(mutex_static, m2, 8, 12);
SCENARIO_FN(mutex_timed, m3, 5, 8);
SCENARIO_FN(mutex_timed_static, m4, 5, 8);
SCENARIO_FN(mutex_recursive, m5, 8, 12);
SCENARIO_FN(mutex_recursive_static, m6, 8, 12);
SCENARIO_FN(mutex_binary, m7, 8, 12);
SCENARIO_FN(mutex_binary_static, m8, 8, 12);
SCENARIO_FN(mutex_binary_timed, m9, 5, 8);

// locks over kernel mutexes: however a piece of work ends, the mutex is free after it
template <class M> static void guarded(Ctx& c)
{
    kernel.reset(); { M m; KernelObject& o = *kernel.all.back(); kernel.begin(); int how = c.pick(6); bool throws = c.flip();
    try { switch(how)
    {
        case 0: { estd::lock_guard<M> g(m); CHECK(o.count == 0, "held: not within the guard"); if(throws) throw 1; break; }
        case 1: { estd::unique_lock<M> g(m); CHECK(o.count == 0 && g.owns_lock(), "held: not within the lock"); if(throws) throw 1; break; }
        case 2: { estd::unique_lock<M> g(m, estd::try_to_lock_t()); CHECK(o.count == 0 && g.owns_lock(), "held: not within the lock"); if(throws) throw 1; break; }
        case 3: { estd::unique_lock<M> g(m, estd::defer_lock_t()); CHECK(o.count == 1 && !g.owns_lock(), "held: although put off"); g.lock(); CHECK(o.count == 0, "held: not though locked"); if(throws) throw 1; g.unlock(); CHECK(o.count == 1, "held: though unlocked"); break; }
        case 4: { m.lock(); estd::unique_lock<M> g(m, estd::adopt_lock_t()); CHECK(o.count == 0 && g.owns_lock(), "held: not though adopted"); if(throws) throw 1; break; }
        case 5: { o.count = 0; o.holder = 1; { estd::unique_lock<M> g(m, estd::try_to_lock_t()); CHECK(!g.owns_lock(), "held: although another task has it"); if(throws) { throws = false; } } CHECK(o.count == 0 && o.holder == 1, "given: what another task holds"); o.count = 1; o.holder = -1; break; }
    } } catch(int) {}
    CHECK(o.count == 1 && o.holder < 0, "held: after the work has ended, way %d", how); c.observe(how); }
    CHECK(kernel.living() == 0, "ended: not given back");
}
SCENARIO_FN(guard_dynamic, guarded<estd::mutex>, 1, 1);
SCENARIO_FN(guard_static, guarded<rtos::mutex<true>>, 1, 1);
SCENARIO_FN(guard_timed, guarded<estd::timed_mutex>, 1, 1);

// ---- semaphores
template <unsigned max, bool within> static void semaphores(Ctx& c)
{
    typedef rtos::counting_semaphore<max, within> S; kernel.reset(); unsigned n = 0; bool given = max > 1 && c.flip(); if(given) n = c.pick(max + 1);
    Held<S> s = [&]{ if constexpr(max > 1) if(given) return Held<S>(n); return Held<S>(); }(); KernelObject& o = s.born(c, max == 1 ? Binary : Counting, within);
    CHECK(o.max == max && S::max() == max, "most: %lu and %u, expected %u", o.max, S::max(), max); CHECK((SemaphoreHandle_t)s->native_handle() == &o, "native: not the kernel's");
    for(int d = 0;; d++)
    {
        s.intact(c); CHECK(o.count == n, "count: %lu, expected %u", o.count, n); c.observe((int)n); if(d == c.bound || c.visited(std::to_string(n), c.bound - d)) break;
        kernel.begin(); kernel.task = c.pick(2);
        switch(c.pick(4))
        {
            case 0: c.log("acquire"); s->acquire(); waited(c, n == 0, portMAX_DELAY); if(n) n--; break;
            case 1: { c.log("try_acquire"); bool r = s->try_acquire(); waited(c, false, 0); CHECK(r == (n > 0), "acquired: %d of %u", r, n); if(r) n--; break; }
            case 2: { const Wait& w = c.of(waits); c.log("try_acquire_for %s", w.name); bool r = false; with(w, [&](auto t) { r = s->try_acquire_for(t); }); waited(c, n == 0 && w.ticks() > 0, w.ticks()); CHECK(r == (n > 0 || kernel.rescued), "acquired: %d of %u", r, n); if(n) n--; break; }
            case 3: c.log("release"); s->release(); if(n < max) n++; break;
        }
    }
    s.die(c, o);
}
#define SEM(max, q, t) static void sd##max(Ctx& c) { semaphores<max, false>(c); } static void ss##max(Ctx& c) { semaphores<max, true>(c); } SCENARIO_FN(semaphore_##max, sd##max, q, t); SCENARIO_FN(semaphore_##max##_static, ss##max, q, t);
SEM(1, 6, 9) SEM(2, 6, 9) SEM(3, 6, 9) SEM(200, 4, 6)

// ---- queues
template <int N> struct Item { unsigned char b[N]; }; typedef Item<1> Small; typedef Item<3> Odd; typedef Item<17> Big;
template <class T> static T item_of(int k) { T t; for(size_t i = 0; i < sizeof t; i++) ((unsigned char*)&t)[i] = (unsigned char)(k * 31 + i); return t; }
template <class T> static std::string from_other(QueueHandle_t) { T t = item_of<T>(77); return std::string((char*)&t, sizeof t); }
// K 0: from the heap, 1: over given storage, 2: embedded
template <class T, int K, unsigned N> struct Queue_; template <class T, unsigned N> struct Queue_<T, 0, N> : rtos::queue<T> { Queue_() : rtos::queue<T>(N) {} }; template <class T, unsigned N> struct Queue_<T, 1, N> : rtos::queue<T, true> { Queue_(T* s) : rtos::queue<T, true>(s, N) {} }; template <class T, unsigned N> struct Queue_<T, 2, N> : rtos::layer1::queue<T, N> {};
template <class T, int K, unsigned N> static void queues(Ctx& c)
{
    typedef Queue_<T, K, N> Q; kernel.reset(); other_sends = from_other<T>; static T external[N + 1]; memset((void*)external, 0x77, sizeof external);
    Held<Q> q = []{ if constexpr(K == 1) return Held<Q>(external); else return Held<Q>(); }(); KernelObject& o = q.born(c, Queue, K != 0);
    CHECK(o.room == N && o.size == sizeof(T), "made: room for %lu of %lu, expected %u of %zu", o.room, o.size, N, sizeof(T));
    if(K == 0) CHECK(!o.buffer, "storage: given, none was to be"); if(K == 1) CHECK(o.buffer == (uint8_t*)external, "storage: not the one given"); if(K == 2) { char* b = (char*)o.buffer; CHECK(b >= (char*)q.p && b + N * sizeof(T) <= (char*)(q.p + 1), "storage: not its own"); CHECK(b + N * sizeof(T) <= (char*)o.storage || b >= (char*)o.storage + sizeof(StaticStorage), "storage: of items and queue overlap"); }
    if constexpr(K != 0) { uint8_t* b = nullptr; StaticQueue_t* s = nullptr; CHECK(q->static_buffers(&b, &s) == pdTRUE && b == o.buffer && s == o.storage, "buffers: not the ones given"); }
    std::deque<int> m; int next = 0;
    for(int d = 0;; d++)
    {
        q.intact(c); unsigned char over[sizeof(T)]; memset(over, 0x77, sizeof over); CHECK(!memcmp(over, &external[N], sizeof over), "outside: wrote behind the storage given");
        CHECK(q->messages_waiting() == m.size(), "waiting: %lu, expected %zu", q->messages_waiting(), m.size()); bool same = o.items.size() == m.size(); for(size_t i = 0; same && i < m.size(); i++) { T t = item_of<T>(m[i]); same = !memcmp(o.items[i].data(), &t, sizeof t); } CHECK(same, "items: not those sent");
        std::string key; for(int x : m) key += (char)x; c.observe(key); if(d == c.bound || c.visited(key + (char)next, c.bound - d)) break;
        kernel.begin(); bool full = m.size() == N, empty = m.empty();
        auto sent = [&](bool r, bool want) { CHECK(r == want, "sent: %d, expected %d with %zu of %u", r, want, m.size(), N); if(r) { if(full) m.pop_front(); m.push_back(next); next = (next + 1) % 3; } };
        auto got = [&](bool r, bool want, const T& v) { CHECK(r == want, "received: %d, expected %d of %zu", r, want, m.size()); if(r) { T t = item_of<T>(empty ? 77 : m.front()); CHECK(!memcmp(&t, &v, sizeof t), "received: another item than the first"); if(!empty) m.pop_front(); } else { T t = item_of<T>(99); CHECK(!memcmp(&t, &v, sizeof t), "received: nothing, but something was written"); } };
        const T v = item_of<T>(next); struct { T item; unsigned char after[8]; } in; memset(&in, 0x42, sizeof in); in.item = item_of<T>(99);
        switch(c.pick(6))
        {
            case 0: { c.log("send"); bool r = q->send(v); waited(c, full, portMAX_DELAY); sent(r, true); break; }
            case 1: { TickType_t t = c.of(std::vector<TickType_t>{0, 1, 70000}); c.log("send within %u", (unsigned)t); bool r = q->send(v, Ticks(t)); waited(c, full && t, t); sent(r, !full || kernel.rescued); break; }
            case 2: { c.log("receive"); bool r = q->receive(&in.item); waited(c, empty, portMAX_DELAY); got(r, true, in.item); break; }
            case 3: { TickType_t t = c.of(std::vector<TickType_t>{0, 1, 70000}); c.log("receive within %u", (unsigned)t); bool r = q->receive(&in.item, Ticks(t)); waited(c, empty && t, t); got(r, !empty || kernel.rescued, in.item); break; }
            case 4: { bool ask = c.flip(); BaseType_t woken = 5; c.log("send from an interrupt"); bool r = ask ? q->send_from_isr(v, &woken) : q->send_from_isr(v); CHECK(woken == (ask && r ? pdTRUE : 5), "woken: %ld", woken); waited(c, false, 0); sent(r, !full); break; }
            case 5: { const Wait& w = c.of(waits); c.log("receive within %s", w.name); bool r = false; with(w, [&](auto t) { r = q->receive(&in.item, t); }); waited(c, empty && w.ticks(), w.ticks()); got(r, !empty || kernel.rescued, in.item); break; }
        }
        for(unsigned char x : in.after) CHECK(x == 0x42, "outside: received more than an item");
    }
    q.die(c, o);
}
#define QUEUE(name, ...) static void q_##name(Ctx& c) { queues<__VA_ARGS__>(c); } SCENARIO_FN(queue_##name, q_##name, 6, 10);
QUEUE(bytes, Small, 0, 2) QUEUE(odd, Odd, 0, 3) QUEUE(big, Big, 0, 1) QUEUE(ints, int, 0, 2) QUEUE(given_bytes, Small, 1, 3) QUEUE(given_ints, int, 1, 2) QUEUE(given_big, Big, 1, 2) QUEUE(own_bytes, Small, 2, 3) QUEUE(own_ints, int, 2, 2) QUEUE(own_big, Big, 2, 1)

// the thin wrapper: every call of the kernel
SCENARIO(queue_wrapper, 6, 8)
{
    kernel.reset(); other_sends = from_other<int>; typedef rtos::wrapper::queue Q; unsigned n = 1 + c.pick(2); bool given = c.flip(); static int mem[2]; static StaticQueue_t st; Q q = given ? Q::create(n, sizeof(int), (uint8_t*)mem, &st) : Q::create(n, sizeof(int)); KernelObject& o = *kernel.all.back();
    CHECK((QueueHandle_t)q == &o && o.room == n && o.size == sizeof(int) && o.buffer == (given ? (uint8_t*)mem : nullptr) && o.storage == (given ? &st : nullptr), "made: another queue than asked for"); CHECK(!strcmp(q.get_name(), "Q"), "name: another");
    std::deque<int> m;
    for(int d = 0; d < c.bound; d++)
    {
        CHECK(q.messages_waiting() == m.size() && q.spaces_available() == n - m.size(), "waiting: %lu and %lu, expected %zu", q.messages_waiting(), q.spaces_available(), m.size());
        if(c.visited(std::to_string(m.size()) + (m.empty() ? "" : std::to_string(m[0])) + (m.size() < 2 ? "" : std::to_string(m[1])) + std::to_string(n) + (given ? "g" : "h"), c.bound - d)) break;
        kernel.begin(); int v = d % 2, in = -1; BaseType_t woken = 7; bool full = m.size() == n, empty = m.empty(); TickType_t t = c.of(std::vector<TickType_t>{0, 3, 0x10001});
        auto first = [&] { return empty ? item_of<int>(77) : m.front(); };
        switch(c.pick(11))
        {
            case 0: { bool r = q.send(&v, t); waited(c, full && t, t); CHECK(r == (!full || kernel.rescued), "sent: %d", r); CHECK(kernel.calls == "send ", "call: %s", kernel.calls.c_str()); if(r) { if(full) m.pop_front(); m.push_back(v); } break; }
            case 1: { bool r = q.send_to_back(&v, t); waited(c, full && t, t); CHECK(r == (!full || kernel.rescued), "sent: %d", r); if(r) { if(full) m.pop_front(); m.push_back(v); } break; }
            case 2: { bool r = q.receive(&in, t); waited(c, empty && t, t); CHECK(r == (!empty || kernel.rescued), "received: %d", r); CHECK(in == (r ? first() : -1), "received: %d", in); if(r && !empty) m.pop_front(); break; }
            case 3: { bool r = q.peek(&in, t); waited(c, empty && t, t); CHECK(r == (!empty || kernel.rescued), "peeked: %d", r); CHECK(in == (r ? first() : -1), "peeked: %d", in); if(r && empty) m.push_back(item_of<int>(77)); break; }
            case 4: { bool r = q.peek_from_isr(&in); CHECK(r == !empty && in == (r ? m.front() : -1), "peeked: %d", in); break; }
            case 5: if(n == 1) { bool r = q.overwrite(&v); CHECK(r, "overwritten: not"); m.assign(1, v); } break;
            case 6: if(n == 1) { bool ask = c.flip(); bool r = ask ? q.overwrite_from_isr(&v, &woken) : q.overwrite_from_isr(&v); CHECK(r && woken == (ask ? pdTRUE : 7), "overwritten: %d, woken %ld", r, woken); m.assign(1, v); } break;
            case 7: { bool r = q.send_from_isr(&v, &woken); CHECK(r == !full && woken == (r ? pdTRUE : 7), "sent: %d, woken %ld", r, woken); if(r) m.push_back(v); break; }
            case 8: CHECK(q.reset() == pdPASS, "reset: failed"); m.clear(); break;
            case 9: { Q other(q); CHECK((QueueHandle_t)other == &o, "copy: of another queue"); break; }
            case 10: { q.free(); CHECK(!o.alive && kernel.living() == 0, "given back: not"); return; }
        }
        c.observe((int)m.size());
    }
}

// ---- timers
static void fires(TimerHandle_t) {}
static int tag1, tag2;
template <bool within> static void timers(Ctx& c)
{
    kernel.reset(); const Wait& w = c.of(waits); bool again = c.flip(); void* id = c.flip() ? &tag1 : nullptr; static const char name[] = "timer";
    typedef rtos::timer<within> T; Ticks period(0); with(w, [&](auto t) { period = Ticks(t); }); CHECK(period.count() == w.ticks(), "ticks: %s is %u, expected %u", w.name, (unsigned)period.count(), (unsigned)w.ticks()); if(!w.ticks()) return;
    Held<T> t(name, period, again, id, fires); KernelObject& o = t.born(c, Timer, within);
    CHECK(o.name == name && o.period == w.ticks() && o.reload == again && o.id == id && o.callback == fires, "made: another timer than asked for");
    bool active = false; TickType_t every = w.ticks(), when = 0;
    for(int d = 0;; d++)
    {
        t.intact(c); const T& k = *t.p; CHECK(k.active() == active && k.dormant() == !active, "running: %d and not %d, expected %d", k.active(), k.dormant(), active); CHECK(k.period().count() == every, "period: %u, expected %u", (unsigned)k.period().count(), (unsigned)every); CHECK(k.id() == id && k.name() == name, "identity: another"); if(active) CHECK(k.expiry().time_since_epoch().count() == when, "expiry: at %u, expected %u", (unsigned)k.expiry().time_since_epoch().count(), (unsigned)when);
        c.observe(std::to_string(every) + (active ? "+" : "-")); if(d == c.bound || c.visited(std::string(w.name) + std::to_string(every) + (active ? "a" : "d") + std::to_string(when - kernel.now) + (id == &tag1 ? "1" : id ? "2" : "0") + (again ? "r" : "o"), c.bound - d)) break;
        kernel.begin(); TickType_t b = c.of(std::vector<TickType_t>{0, 4, 0x20000}); BaseType_t woken = 7; kernel.now += c.flip() ? 50 : 0; pended = {};
        auto done = [&](BaseType_t r, const char* call, TickType_t blocks) { CHECK(r == (kernel.rescued ? pdPASS : pdFAIL), "result: of %s is %ld", call, r); CHECK(kernel.block == blocks, "time: %s would wait %u ticks, expected %u", call, (unsigned)kernel.block, (unsigned)blocks); CHECK(kernel.calls == std::string(call) + " ", "call: %s, expected %s", kernel.calls.c_str(), call); return r == pdPASS; };
        switch(c.pick(9))
        {
            case 0: c.log("start"); if(done(t->start(Ticks(b)), "start", b)) { active = true; when = kernel.now + every; } break;
            case 1: c.log("stop"); if(done(t->stop(Ticks(b)), "stop", b)) active = false; break;
            case 2: c.log("reset"); if(done(t->reset(Ticks(b)), "reset", b)) { active = true; when = kernel.now + every; } break;
            case 3: { TickType_t p = c.flip() ? 3 : 0x30000; c.log("period %u", (unsigned)p); if(done(t->period(Ticks(p), Ticks(b)), "change_period", b)) { every = p; active = true; when = kernel.now + p; } break; }
            case 4: c.log("id"); id = id == &tag2 ? (void*)&tag1 : &tag2; t->id(id); break;
            case 5: c.log("stop from an interrupt"); if(done(t->stop_from_isr(&woken), "stop_isr", 0)) active = false; CHECK(woken == (kernel.rescued ? pdTRUE : 7), "woken: %ld", woken); break;
            case 6: c.log("reset from an interrupt"); if(done(t->reset_from_isr(&woken), "reset_isr", 0)) { active = true; when = kernel.now + every; } CHECK(woken == (kernel.rescued ? pdTRUE : 7), "woken: %ld", woken); break;
            case 7: c.log("start from an interrupt"); if(done(t->native().start_from_isr(&woken), "start_isr", 0)) { active = true; when = kernel.now + every; } CHECK(woken == (kernel.rescued ? pdTRUE : 7), "woken: %ld", woken); break;
            case 8: { PendedFunction_t f = [](void*, uint32_t) {}; bool isr = c.flip(); BaseType_t r = isr ? rtos::wrapper::timer::pend_function_call_from_isr(f, &tag1, 0xfedcba98, &woken) : c.flip() ? rtos::wrapper::timer::pend_function_call(f, &tag1, 0xfedcba98, b) : T::pend_function_call(f, &tag1, 0xfedcba98, Ticks(b)); CHECK(pended.f == f && pended.p == &tag1 && pended.v == 0xfedcba98 && pended.isr == isr && (isr || pended.t == b), "pended: another call"); CHECK(r == (kernel.rescued ? pdPASS : pdFAIL) && woken == (isr ? pdTRUE : 7), "pended: %ld", r); break; }
        }
    }
    t.die(c, o); CHECK(kernel.block == (TickType_t)(rate / 10), "time: ending would wait %u ticks, expected a tenth of a second", (unsigned)kernel.block);
}
SCENARIO_FN(timer_dynamic, timers<false>, 2, 3);
SCENARIO_FN(timer_static, timers<true>, 2, 3);

// ---- event groups
template <bool within> static void events(Ctx& c)
{
    kernel.reset(); typedef rtos::event_group<within> E; Held<E> e; KernelObject& o = e.born(c, Events, within); CHECK((EventGroupHandle_t)*e.p == &o, "native: not the kernel's"); EventBits_t m = 0; static const std::vector<EventBits_t> sets = {1, 2, 0x800000, 3, 0x800001, 7, 0xffffff};
    for(int d = 0;; d++)
    {
        e.intact(c); CHECK(o.bits == m, "bits: %x, expected %x", o.bits, m); c.observe((int)m); if(d == c.bound || c.visited(std::to_string(m), c.bound - d)) break;
        kernel.begin(); EventBits_t b = c.of(sets); BaseType_t woken = 7;
        switch(c.pick(6))
        {
            case 0: { c.log("set %x", b); m |= b; EventBits_t r = e->set_bits(b); CHECK(r == m, "set: gives %x, expected %x", r, m); break; }
            case 1: { c.log("clear %x", b); EventBits_t r = e->clear_bits(b); CHECK(r == m, "clear: gives %x, expected %x", r, m); m &= ~b; break; }
            case 2: { bool clear = c.flip(), all = c.flip(), direct = c.flip(); TickType_t t = c.of(std::vector<TickType_t>{0, 9, 0x10002}); c.log("wait for %s of %x%s", all ? "all" : "any", b, clear ? " and clear" : ""); bool now = all ? (m & b) == b : (m & b) != 0; EventBits_t r = direct ? ((rtos::wrapper::event_group&)*e.p).wait_bits(b, clear, all, t) : e->wait_bits(b, clear, all, Ticks(t)); waited(c, !now && t, t); bool met = now || kernel.rescued; if(!now && met) m |= all ? b : b & -b; CHECK(r == m, "wait: gives %x, expected %x", r, m); if(met && clear) m &= ~b; break; }
            case 3: { EventBits_t s = c.of(sets); bool direct = c.flip(); TickType_t t = c.of(std::vector<TickType_t>{0, 9, 0x10002}); c.log("sync %x with %x", s, b); m |= s; bool now = (m & b) == b; EventBits_t r = direct ? ((rtos::wrapper::event_group&)*e.p).sync(s, b, t) : e->sync(s, b, Ticks(t)); waited(c, !now && t, t); bool met = now || kernel.rescued; if(!now && met) m |= b; CHECK(r == m, "sync: gives %x, expected %x", r, m); if(met) m &= ~b; break; }
            case 4: { c.log("set %x from an interrupt", b); BaseType_t r = e->set_bits_from_isr(b, &woken); CHECK(r == pdPASS && woken == pdTRUE, "set: %ld", r); m |= b; break; }
            case 5: { c.log("clear %x from an interrupt", b); BaseType_t r = e->clear_bits_from_isr(b); CHECK(r == pdPASS, "clear: %ld", r); m &= ~b; break; }
        }
    }
    e.die(c, o);
}
SCENARIO_FN(events_dynamic, events<false>, 4, 6);
SCENARIO_FN(events_static, events<true>, 4, 6);

// ---- the thin semaphore wrapper: every way of making one and every call
SCENARIO(semaphore_wrapper, 5, 7)
{
    kernel.reset(); typedef rtos::wrapper::semaphore S; static StaticSemaphore_t st; S s; int how = c.pick(8); unsigned max = how == 2 || how == 3 ? 2 + c.pick(2) : 1, n = how == 2 || how == 3 ? c.pick(max + 1) : how >= 4 ? 1 : 0; kernel.begin(); SemaphoreHandle_t h = nullptr;
    switch(how) { case 0: h = s.create_binary(); break; case 1: h = s.create_binary(&st); break; case 2: h = s.create_counting(max, n); break; case 3: h = s.create_counting(max, n, &st); break; case 4: h = s.create_mutex(); break; case 5: h = s.create_mutex(&st); break; case 6: h = s.create_recursive_mutex(); break; case 7: h = s.create_recursive_mutex(&st); break; }
    static const Kind kinds[] = {Binary, Binary, Counting, Counting, Mutex, Mutex, Recursive, Recursive}; Kind k = kinds[how]; CHECK(kernel.living() == 1, "made: %u", kernel.living()); KernelObject& o = *kernel.all.back(); CHECK(h == &o && (SemaphoreHandle_t)s == h && o.kind == k && o.storage == (how & 1 ? &st : nullptr) && o.max == max && o.count == n, "made: another semaphore than asked for");
    int holder = -1, depth = 0;
    for(int d = 0; d < c.bound; d++)
    {
        CHECK(s.count() == o.count, "count: %lu", s.count()); if(k == Recursive) CHECK(o.depth == depth || o.holder < 0, "depth: %d", o.depth); else CHECK(o.count == n, "count: %lu, expected %u", o.count, n); if(k == Mutex || k == Recursive) CHECK(s.mutex_holder() == (holder < 0 ? nullptr : &kernel.tasks[holder]), "holder: another");
        c.observe((int)n + 10 * how); if(c.visited(std::to_string(how) + "," + std::to_string(max) + "," + std::to_string(n) + "," + std::to_string(holder) + "," + std::to_string(depth), c.bound - d)) break;
        kernel.begin(); kernel.task = c.pick(2); int me = kernel.task; BaseType_t woken = 7; TickType_t t = c.of(std::vector<TickType_t>{0, 6, 0x10003});
        if(k == Recursive)
        {
            bool mine = holder == me, freely = mine || holder < 0; if(c.flip()) { c.log("take again"); bool r = s.take_recursive(t); waited(c, !freely && t, t); CHECK(r == (freely || kernel.rescued), "taken: %d", r); if(r) { depth = mine ? depth + 1 : 1; holder = me; } } else { c.log("give again"); bool r = s.give_recursive(); CHECK(r == mine, "given: %d", r); if(r && --depth == 0) holder = -1; }
            continue;
        }
        if(k == Mutex && holder >= 0 && holder != me) continue;
        switch(c.pick(5))
        {
            case 0: { c.log("give"); bool r = s.give(); CHECK(r == (n < max), "given: %d", r); if(r) { n++; holder = -1; } break; }
            case 1: { if(k == Mutex) break; bool ask = c.flip(); bool r = s.give_from_isr(ask ? &woken : nullptr); CHECK(r == (n < max) && woken == (ask ? pdTRUE : 7), "given: %d, woken %ld", r, woken); if(r) n++; break; }
            case 2: { if(k == Mutex && n == 0) break; c.log("take"); bool r = s.take(t); waited(c, n == 0 && t, t); CHECK(r == (n > 0 || kernel.rescued), "taken: %d", r); if(r) { if(n) n--; if(k == Mutex) holder = me; } break; }
            case 3: { if(k == Mutex) break; bool ask = c.flip(); bool r = s.take_from_isr(ask ? &woken : nullptr); CHECK(r == (n > 0) && woken == (ask ? pdTRUE : 7), "taken: %d, woken %ld", r, woken); if(r) n--; break; }
            case 4: { S other(h); CHECK((SemaphoreHandle_t)other == h, "copy: of another"); c.log("free"); s.free(); CHECK(!o.alive && kernel.living() == 0, "given back: not"); return; }
        }
    }
}

// ---- tasks
static void body(void*) {}
template <unsigned N> static void static_task(Ctx& c)
{
    typedef rtos::wrapper::task T; struct { unsigned char before[32]; T::storage<N> s; unsigned char after[32]; } x; memset((void*)&x, 0xA5, sizeof x); kernel.reset(); T t = T::create_static(body, "static", &tag1, 7, &x.s); KernelObject& o = *kernel.all.back();
    CHECK((TaskHandle_t)t == &o && o.code == body && !strcmp(o.name, "static") && o.param == &tag1 && o.priority == 7 && o.storage == &x.s.task && o.stack_at == x.s.stack, "made: another task than asked for");
    CHECK(o.stack * sizeof(StackType_t) <= N && (o.stack + 1) * sizeof(StackType_t) > N, "stack: of %lu words in %u bytes", o.stack, N); CHECK(o.stack == sizeof x.s.stack / sizeof(StackType_t), "stack: %lu words, there are %zu", o.stack, sizeof x.s.stack / sizeof(StackType_t));
    for(unsigned char b : x.before) CHECK(b == 0xA5, "outside: wrote before the stack"); for(unsigned char b : x.after) CHECK(b == 0xA5, "outside: wrote behind the stack"); c.observe((int)o.stack);
}
SCENARIO(tasks, 3, 4)
{
    typedef rtos::wrapper::task T; int how = c.pick(4); if(how == 2) return static_task<64>(c); if(how == 3) { switch(c.pick(3)) { case 0: return static_task<100>(c); case 1: return static_task<1000>(c); default: return static_task<8>(c); } }
    kernel.reset(); T t; static StackType_t stack[32]; static StaticTask_t st; KernelObject* o = nullptr;
    if(how == 0) { int depth = c.of(std::vector<int>{1, 300, 65535}); BaseType_t r = t.create(body, "task", depth, &tag2, 3); if(r != pdPASS) { CHECK(r == -1 && kernel.living() == 0, "create: %ld", r); return; } o = kernel.all.back().get(); CHECK(o->stack == (unsigned)depth && o->param == &tag2 && o->priority == 3 && !strcmp(o->name, "task"), "made: another task than asked for"); }
    else { t = T::create_static(body, "given", 32, &tag2, 5, stack, &st); o = kernel.all.back().get(); CHECK(o->stack == 32 && o->param == &tag2 && o->priority == 5 && o->stack_at == stack && o->storage == &st && !strcmp(o->name, "given"), "made: another task than asked for"); }
    CHECK((TaskHandle_t)t == o && o->code == body, "made: another task than asked for"); bool active = true;
    for(int d = 0; d < c.bound; d++)
    {
        kernel.begin(); notified = {}; BaseType_t woken = 7; CHECK(!strcmp(t.name(), o->name), "name: %s", t.name()); CHECK(t.state() == (active ? eReady : eSuspended), "state: %d", (int)t.state()); kernel.begin();
        auto told = [&](const char* call, uint32_t v, int a, UBaseType_t i) { CHECK(kernel.calls == std::string(call) + " ", "call: %s, expected %s", kernel.calls.c_str(), call); CHECK(notified.value == v && notified.action == a && notified.index == i, "told: %x by %d at %lu", notified.value, notified.action, notified.index); };
        static const std::vector<int> actions = {eNoAction, eSetBits, eIncrement, eSetValueWithOverwrite, eSetValueWithoutOverwrite};
        switch(c.pick(11))
        {
            case 0: t.suspend(); active = false; break; case 1: t.resume(); active = true; break;
            case 2: t.notify_give(); told("notify_give", 0, eIncrement, 0); break; case 3: t.notify_give(3); told("notify_give_indexed", 0, eIncrement, 3); break;
            case 4: { bool ask = c.flip(); if(ask) t.notify_give_from_isr(&woken); else t.notify_give_from_isr(); told("notify_give_isr", 0, eIncrement, 0); CHECK(woken == (ask ? pdTRUE : 7), "woken: %ld", woken); break; }
            case 5: { int a = c.of(actions); t.notify(0x87654321, (eNotifyAction)a); told("notify", 0x87654321, a, 0); break; }
            case 6: { int a = c.of(actions); bool ask = c.flip(); if(ask) t.notify_from_isr(0x87654321, (eNotifyAction)a, &woken); else t.notify_from_isr(0x87654321, (eNotifyAction)a); told("notify_isr", 0x87654321, a, 0); CHECK(woken == (ask ? pdTRUE : 7), "woken: %ld", woken); break; }
            case 7: CHECK(t.notify_value_clear(0x87650000) == (0x87650000 | 0x1234), "cleared: another value"); told("notify_value_clear", 0x87650000, -1, 0); break;
            case 8: { t.notify_state_clear(); CHECK(kernel.calls == "notify_state_clear ", "call: %s", kernel.calls.c_str()); break; }
            case 9: { kernel.task = c.pick(3); CHECK((TaskHandle_t)T::current() == &kernel.tasks[kernel.task], "current: another"); break; }
            case 10: { T u(o); CHECK((TaskHandle_t)u == o, "copy: of another"); break; }
        }
        c.observe((int)active);
    }
}

// ---- this thread, and the clock
SCENARIO(sleeping, 1, 1)
{
    kernel.reset(); kernel.begin(); TickType_t was = kernel.now; const Wait& w = c.of(waits); with(w, [&](auto t) { estd::this_thread::sleep_for(t); }); CHECK(kernel.calls == "delay " && kernel.ticks == w.ticks(), "sleep: %s is %u ticks, expected %u", w.name, (unsigned)kernel.ticks, (unsigned)w.ticks());
    CHECK(ch::freertos_clock::now().time_since_epoch().count() == was + w.ticks(), "clock: %u", (unsigned)ch::freertos_clock::now().time_since_epoch().count());
    kernel.begin(); estd::this_thread::yield(); CHECK(kernel.calls == "yield ", "yield: %s", kernel.calls.c_str()); kernel.task = c.pick(3); CHECK(estd::this_thread::get_id() == &kernel.tasks[kernel.task], "id: another task"); CHECK(rtos::max_delay().count() == portMAX_DELAY, "longest: %u", (unsigned)rtos::max_delay().count()); c.observe(w.name);
}
SCENARIO(clock, 1, 1)
{
    kernel.reset(); TickType_t now = c.of(std::vector<TickType_t>{0, 1, 99, 100, 101, 0x7fffffff, 0xfffffffe}), later = c.of(std::vector<TickType_t>{0, 1, 10, 12345}); kernel.now = now; auto a = ch::freertos_clock::now(); kernel.now = now + later; auto b = ch::freertos_clock::now();
    CHECK((b - a).count() == later, "elapsed: %u, expected %u", (unsigned)(b - a).count(), (unsigned)later); CHECK((b - a == Ticks(later)), "elapsed: not equal to %u", (unsigned)later);
    unsigned long long ms = (unsigned long long)later * 1000 / rate; CHECK((unsigned long long)ch::duration_cast<ch::milliseconds>(b - a).count() == ms, "elapsed: %llu ms, expected %llu", (unsigned long long)ch::duration_cast<ch::milliseconds>(b - a).count(), ms); c.observe((int)later);
}
