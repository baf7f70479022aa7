#include "mc.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace mc {
Ctx* current = nullptr;
Life life;

static Shared* g_sh;
static int g_hang_s = 20;
static uint64_t g_last = ~0ull; static int g_ticks = 0;
static void on_tick(int)
{
    // CPU-time ticks (1 per second of consumed CPU): the same execution for g_hang_s ticks = hang
    if(!g_sh->running) { g_ticks = 0; return; }
    if(g_sh->executions != g_last) { g_last = g_sh->executions; g_ticks = 0; return; }
    if(++g_ticks >= g_hang_s) { const char m[] = "mc: HANG\n"; (void)!write(2, m, sizeof m - 1); _exit(98); }
}

static std::string jesc(const std::string& s)
{
    std::string r;
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if(c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

// one execution; returns true if ok
static bool run_one(Ctx& c, Body body, std::string& msg)
{
    c.arity.clear(); c.sh->len = 0; c.pending.clear(); c.oplog.clear();
    life.reset();
    current = &c;
    ++c.sh->executions; ++c.executions;
    c.sh->running = 1;
    bool ok = true;
    try { body(c); if(!c.pending.empty()) { msg = c.pending; ok = false; } }
    catch(Violation& v) { msg = v.msg; ok = false; }
    catch(Boom&) { msg = "injected exception escaped to the caller of the harness"; ok = false; }
    catch(std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); ok = false; }
    c.sh->running = 0;
    current = nullptr;
    return ok;
}

int main_(int argc, char** argv)
{
    std::string name, tracefile, replay; bool thorough = false, survey = false; int depth = -1;
    std::unordered_map<std::string, int> classes; int si = 0, sn = 1; int first_depth = 1;
    for(int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        if(a == "--list")
        {
            for(auto& s : scenarios()) printf("%s %d %d %d %d\n", s.name, s.quick, s.thorough, s.shards_q, s.shards_t);
            return 0;
        }
        else if(a == "--scenario") name = argv[++i];
        else if(a == "--trace") tracefile = argv[++i];
        else if(a == "--thorough") thorough = true;
        else if(a == "--depth") depth = atoi(argv[++i]);
        else if(a == "--replay") replay = argv[++i];
        else if(a == "--survey") survey = true;
        else if(a == "--hang") g_hang_s = atoi(argv[++i]);
        else if(a == "--shard") sscanf(argv[++i], "%d/%d", &si, &sn);
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 64; }
    }
    Scenario* sc = nullptr;
    for(auto& s : scenarios()) if(name == s.name) sc = &s;
    if(!sc) { fprintf(stderr, "no scenario %s\n", name.c_str()); return 64; }

    int fd = tracefile.empty() ? -1 : open(tracefile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if(fd >= 0 && ftruncate(fd, sizeof(Shared)) != 0) { perror("ftruncate"); return 64; }
    g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, fd >= 0 ? MAP_SHARED : MAP_SHARED | MAP_ANONYMOUS, fd, 0);
    if(g_sh == MAP_FAILED) { perror("mmap"); return 64; }
    g_sh->magic = 0x4d434d43;

    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    itimerval it; it.it_interval = {1, 0}; it.it_value = {1, 0};
    setitimer(ITIMER_PROF, &it, nullptr);

    Ctx c; c.sh = g_sh; c.thorough = thorough;
    std::string msg;

    if(!replay.empty())
    {
        // "bound:choice,choice,..."
        const char* p = replay.c_str();
        c.bound = strtol(p, (char**)&p, 10); if(*p == ':') ++p;
        while(*p) { c.prefix.push_back((uint16_t)strtol(p, (char**)&p, 10)); if(*p == ',') ++p; }
        c.replaying = c.logging = true;
        g_sh->bound = c.bound;
        bool ok = run_one(c, sc->body, msg);
        if(ok) { printf("REPLAY-OK\n"); return 0; }
        printf("REPLAY-FAIL %s\n", msg.c_str());
        return 1;
    }

    const int maxd = depth >= 0 ? depth : thorough ? sc->thorough : sc->quick;
    struct timeval t0, t1; gettimeofday(&t0, nullptr);
    bool bad = false;
    // iterate the bound, so that the first counterexample is a shortest one
    std::vector<int> rounds;
    // only a few shallow rounds: their cost is dominated by the last one
    for(int d = 1; d <= maxd; d++) rounds.push_back(d);
    uint64_t last_exec = 0;
    for(int d : rounds)
    {
        c.bound = d; g_sh->bound = d; c.seen.clear(); c.prefix.clear();
        uint64_t before = c.executions;
        // The first pick may be sharded
        if(sn > 1) c.prefix.push_back((uint16_t)si);
        bool first = true;
        for(;;)
        {
            // the very first execution tells us whether shard si exists
            if(sn > 1 && first)
            {
                std::vector<uint16_t> save = c.prefix; (void)save;
                // arity of first pick is not known: probe with choice 0
                Ctx probe; probe.sh = g_sh; probe.bound = d; probe.thorough = thorough;
                probe.prefix.push_back(0);
                std::string m2;
                if(!run_one(probe, sc->body, m2)) { msg = m2; bad = true; break; }
                if(probe.arity.empty() || si >= probe.arity[0]) break;
                first = false;
            }
            size_t n = c.executions;
            c.logging = c.samples.size() < 3 && d == maxd && (n == before || n == before + 7 || n == before + 1001);
            bool ok = run_one(c, sc->body, msg);
            if(c.logging && !c.oplog.empty()) c.samples.push_back(c.oplog);
            if(!ok && survey)
            {
                // development aid: classify failures by message shape and carry on
                std::string k; bool q = false;
                for(char ch : msg) { if(ch == '"') { q = !q; k += ch; } else if(!q && !(ch >= '0' && ch <= '9')) k += ch; }
                if(classes[k]++ < 2)
                {
                    printf("FAIL %s   [%d:", msg.c_str(), c.bound);
                    for(uint32_t i = 0; i < g_sh->len; i++) printf("%s%d", i ? "," : "", g_sh->choice[i]);
                    printf("]\n");
                }
            }
            else if(!ok) { bad = true; break; }
            // next sequence
            std::vector<uint16_t> ch(g_sh->choice, g_sh->choice + g_sh->len);
            while(!ch.empty())
            {
                size_t k = ch.size() - 1;
                int step = (k == 0 && sn > 1) ? sn : 1;
                if(ch[k] + step < c.arity[k]) { ch[k] = (uint16_t)(ch[k] + step); break; }
                ch.pop_back();
            }
            if(ch.empty()) break;
            c.prefix = ch;
        }
        last_exec = c.executions - before;
        if(bad) break;
    }
    for(auto& k : classes) printf("CLASS %d x %s\n", k.second, k.first.c_str());
    gettimeofday(&t1, nullptr);
    double dt = (t1.tv_sec - t0.tv_sec) + (t1.tv_usec - t0.tv_usec) / 1e6;
    printf("{\"scenario\":\"%s\",\"bound\":%d,\"executions\":%llu,\"executions_at_bound\":%llu,\"transitions\":%llu,\"pruned\":%llu,\"states\":%zu,\"outcomes\":%zu,\"checks\":%llu,\"wall_s\":%.2f,\"ok\":%s",
        sc->name, c.bound, (unsigned long long)c.executions, (unsigned long long)last_exec, (unsigned long long)c.transitions, (unsigned long long)c.pruned,
        c.states.size(), c.outcomes.size(), (unsigned long long)c.checks, dt, bad ? "false" : "true");
    printf(",\"samples\":[");
    for(size_t i = 0; i < c.samples.size(); i++) printf("%s\"%s\"", i ? "," : "", jesc(c.samples[i].substr(0, 600)).c_str());
    printf("]");
    if(bad)
    {
        printf(",\"message\":\"%s\",\"trace\":\"%d:", jesc(msg).c_str(), c.bound);
        for(uint32_t i = 0; i < g_sh->len; i++) printf("%s%d", i ? "," : "", g_sh->choice[i]);
        printf("\"");
    }
    printf("}\n");
    fflush(stdout);
    return bad ? 1 : 0;
}
}

int main(int argc, char** argv) { return mc::main_(argc, argv); }
