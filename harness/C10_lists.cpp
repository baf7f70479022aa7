// Property C10: linked lists hold exactly the linked nodes, in order.
#include <estd/string.h>
#include <estd/forward_list.h>
#include <estd/list.h>
#include <estd/algorithm.h>
#include <set>
#include "mc.h"
using namespace mc;

static long outstanding;      // blocks handed out by operator new while `counting`
static bool counting;
static std::set<void*>* blocks;
void* operator new(size_t n) { void* p = malloc(n); if(counting) { counting = false; blocks->insert(p); ++outstanding; counting = true; } return p; }
void operator delete(void* p) noexcept { if(counting) { counting = false; if(blocks->erase(p)) --outstanding; counting = true; } free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
struct Count { Count() { static std::set<void*> s; blocks = &s; counting = true; } ~Count() { counting = false; } };

struct Node : estd::experimental::forward_node_base
{
    int val;
    bool operator==(const Node& o) const { return val == o.val; }
};
enum { NN = 5 };
static Node nodes[NN];

template <class L> static void agree(Ctx& c, L& l, const std::vector<int>& m)
{
    CHECK(l.empty() == m.empty(), "empty: wrong with %zu nodes", m.size());
    if(!m.empty()) CHECK(&l.front() == nodes + m[0], "front: wrong node");
    size_t i = 0;
    for(auto it = l.begin(); it != l.end(); ++it, ++i) { CHECK(i < m.size(), "iteration: too far"); CHECK(&*it == nodes + m[i], "iteration: position %zu is the wrong node", i); }
    CHECK(i == m.size(), "iteration: %zu of %zu nodes", i, m.size());
    i = 0;
    for(auto it = l.begin(); it != l.end(); it++) ++i;
    CHECK(i == m.size(), "postfix iteration: %zu", i);
    c.observe(show_seq(m));
}
static int unused(Ctx& c, const std::vector<int>& m)      // some node that is not linked
{
    std::vector<int> f; for(int i = 0; i < NN; i++) if(std::find(m.begin(), m.end(), i) == m.end()) f.push_back(i);
    return f.empty() ? -1 : c.of(f);
}
static void reset_nodes() { for(int i = 0; i < NN; i++) { nodes[i].next((estd::experimental::forward_node_base*)nullptr); } }

SCENARIO_SHARDED(intrusive_forward_list, 7, 9, 4, 8)
{
    estd::intrusive_forward_list<Node> l; reset_nodes();
    // values repeat, so that removing by value hits several neighbouring nodes
    static const int vals[2][NN] = {{1, 1, 1, 2, 2}, {1, 2, 1, 2, 3}}; int vs = c.pick(2);
    for(int i = 0; i < NN; i++) nodes[i].val = vals[vs][i];
    std::vector<int> m;
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(show_seq(m) + char(vs), c.bound - d)) return;
        switch(c.pick(8))
        {
            case 0: { int n = unused(c, m); if(n < 0) return; c.log("push_front(#%d)", n); l.push_front(nodes[n]); m.insert(m.begin(), n); break; }
            case 1: if(m.empty()) return; c.log("pop_front"); l.pop_front(); m.erase(m.begin()); break;
            case 2:
            {
                if(m.empty()) return; int n = unused(c, m); if(n < 0) return; int p = c.pick(m.size()); c.log("insert_after(%d,#%d)", p, n);
                auto it = l.begin(); it += p; auto r = l.insert_after(it, nodes[n]); CHECK(&*r == nodes + n, "insert_after: returned iterator"); m.insert(m.begin() + p + 1, n); break;
            }
            case 3:
            {
                if(m.size() < 2) return; int p = c.pick(m.size() - 1); c.log("erase_after(%d)", p);
                auto r = l.erase_after(l.begin() + p); m.erase(m.begin() + p + 1);
                if(p + 1u < m.size()) CHECK(&*r == nodes + m[p + 1], "erase_after: returned iterator"); else CHECK(r == l.end(), "erase_after: returned iterator"); break;
            }
            case 4: case 5:
            {
                int v = 1 + c.pick(2); Node key; key.val = v; bool pred = c.flip(), first = c.flip(); c.log("remove%s(%d%s)", pred ? "_if" : "", v, first ? ", first only" : "");
                auto is = [v](const Node& n) { return n.val == v; };
                if(first) { if(pred) l.remove_if(is, true); else l.remove(key, true); } else { if(pred) l.remove_if(is); else l.remove(key); }
                for(size_t i = 0; i < m.size();) if(nodes[m[i]].val == v) { m.erase(m.begin() + i); if(first) break; } else ++i;
                break;
            }
            case 6:
            {
                int v = 1 + c.pick(3); auto it = estd::find_if(l.begin(), l.end(), [v](Node& n) { return n.val == v; }); int e = -1; for(int x : m) if(nodes[x].val == v) { e = x; break; }
                if(e < 0) CHECK(it == l.end(), "find_if: found nothing there"); else CHECK(&*it == nodes + e, "find_if: wrong node"); break;
            }
            case 7: return;
        }
        agree(c, l, m);
    }
}

SCENARIO_SHARDED(intrusive_with_back, 9, 12, 4, 8)
{
    estd::intrusive_forward_list_with_back<Node> l; reset_nodes(); std::vector<int> m;
    for(int i = 0; i < NN; i++) nodes[i].val = i;
    for(int d = 0; d < c.bound; d++)
    {
        // a node popped earlier may keep an old link: part of the state
        std::string links; for(auto& n : nodes) links += char('a' + (n.next() ? (Node*)n.next() - nodes : 25));
        if(c.visited(show_seq(m) + links, c.bound - d)) return;
        switch(c.pick(3))
        {
            case 0: { int n = unused(c, m); if(n < 0) return; nodes[n].next((estd::experimental::forward_node_base*)nullptr); c.log("push_front(#%d)", n); l.push_front(nodes[n]); m.insert(m.begin(), n); break; }
            case 1: { int n = unused(c, m); if(n < 0) return; nodes[n].next((estd::experimental::forward_node_base*)nullptr); c.log("push_back(#%d)", n); l.push_back(nodes[n]); m.push_back(n); break; }
            case 2: if(m.empty()) return; c.log("pop_front"); l.pop_front(); m.erase(m.begin()); break;
        }
        agree(c, l, m);
        if(!m.empty()) CHECK(&l.back() == nodes + m.back(), "back: wrong node");
    }
}

// values copied into nodes the list allocates
SCENARIO_SHARDED(owning_forward_list, 8, 10, 4, 8)
{
    typedef estd::experimental::ValueNode<long, estd::experimental::forward_node_base> VN;
    Count guard; outstanding = 0; std::vector<long> m; long base = 0;
    {
        counting = false; estd::internal::forward_list<long, VN> l;
        for(int d = 0; d < c.bound; d++)
        {
            if(c.visited(show_seq(m), c.bound - d)) { while(!l.empty()) l.pop_front(); return; }
            long v = c.pick(2), out = outstanding; bool skip = false;
            int op = c.pick(7), p = m.empty() ? 0 : c.pick(m.size()); bool first = op == 6 && c.flip();
            counting = true;
            switch(op)
            {
                case 0: l.push_front(v); counting = false; m.insert(m.begin(), v); break;
                case 1: { long t = v; l.push_front(std::move(t)); counting = false; m.insert(m.begin(), v); break; }
                case 2: l.emplace_front(v); counting = false; m.insert(m.begin(), v); break;
                case 3: if(m.empty()) { skip = true; break; } l.pop_front(); counting = false; m.erase(m.begin()); break;
                case 4: { if(m.empty()) { skip = true; break; } auto it = l.begin() + p; auto r = l.insert_after(it, v); counting = false; CHECK(*r == v, "insert_after: returned iterator"); m.insert(m.begin() + p + 1, v); break; }
                case 5: { if(m.size() < 2 || p + 1u >= m.size()) { skip = true; break; } l.erase_after(l.begin() + p); counting = false; m.erase(m.begin() + p + 1); break; }
                case 6:
                {
                    c.log("remove_if(== %ld%s)", v, first ? ", first only" : ""); auto is = [v](VN& n) { return n.value() == v; };
                    if(first) l.remove_if(is, true); else l.remove_if(is);
                    counting = false; auto e = first ? std::find(m.begin(), m.end(), v) : m.end(); if(first) { if(e != m.end()) m.erase(e); } else m.erase(std::remove(m.begin(), m.end(), v), m.end()); break;
                }
            }
            counting = false;
            if(skip) { while(!l.empty()) l.pop_front(); return; }
            (void)out; (void)base;
            CHECK(outstanding == (long)m.size(), "owning list: %ld blocks allocated for %zu elements", outstanding, m.size());
            CHECK(l.empty() == m.empty(), "owning list: empty");
            size_t i = 0; for(auto it = l.begin(); it != l.end(); ++it, ++i) { CHECK(i < m.size(), "owning list: iterates too far"); CHECK(*it == m[i], "owning list: position %zu is %ld, expected %ld", i, (long)*it, m[i]); }
            CHECK(i == m.size(), "owning list: %zu of %zu", i, m.size());
            c.observe(show_seq(m));
        }
        counting = true; while(!l.empty()) l.pop_front(); counting = false;
        CHECK(outstanding == 0, "owning list: %ld blocks left after popping everything", outstanding);
    }
}

// values that must be destroyed: each lives exactly as long as it is in the list
SCENARIO_SHARDED(owning_objects, 7, 9, 4, 8)
{
    typedef estd::experimental::ValueNode<Tracked, estd::experimental::forward_node_base> VN;
    std::vector<int> m; life.reset();
    {
        estd::internal::forward_list<Tracked, VN> l; struct Empty { decltype(l)& l; ~Empty() { while(!l.empty()) l.pop_front(); } } empty{l};
        for(int d = 0; d < c.bound; d++)
        {
            if(c.visited(show_seq(m), c.bound - d)) return;
            int v = 1 + c.pick(2), op = c.pick(7), p = m.empty() ? 0 : c.pick(m.size()); bool first = op == 6 && c.flip();
            switch(op)
            {
                case 0: { c.log("push_front(const %d)", v); const Tracked t(v); l.push_front(t); CHECK(t.v == v, "push_front: changed its source"); m.insert(m.begin(), v); break; }
                case 1: c.log("push_front(%d)", v); l.push_front(Tracked(v)); m.insert(m.begin(), v); break;
                case 2: c.log("emplace_front(%d)", v); l.emplace_front(v); m.insert(m.begin(), v); break;
                case 3: if(m.empty()) return; c.log("pop_front"); l.pop_front(); m.erase(m.begin()); break;
                case 4: { if(m.empty()) return; c.log("insert_after(%d)", p); const Tracked t(v); auto r = l.insert_after(l.begin() + p, t); CHECK((*r).v == v, "insert_after: returned iterator"); m.insert(m.begin() + p + 1, v); break; }
                case 5: { if(p + 1u >= m.size()) return; c.log("erase_after(%d)", p); l.erase_after(l.begin() + p); m.erase(m.begin() + p + 1); break; }
                case 6:
                {
                    c.log("remove_if(== %d%s)", v, first ? ", first only" : ""); auto is = [v](VN& n) { return n.value().v == v; };
                    if(first) { l.remove_if(is, true); auto e = std::find(m.begin(), m.end(), v); if(e != m.end()) m.erase(e); }
                    else { l.remove_if(is); m.erase(std::remove(m.begin(), m.end(), v), m.end()); }
                    break;
                }
            }
            c.flush(); CHECK(life.live.size() == m.size(), "owning objects: %zu values alive, %zu in the list", life.live.size(), m.size());
            size_t i = 0; for(auto it = l.begin(); it != l.end(); ++it, ++i) { CHECK(i < m.size(), "owning objects: iterates too far"); CHECK((*it).v == m[i], "owning objects: position %zu is %d, expected %d", i, (*it).v, m[i]); }
            CHECK(i == m.size(), "owning objects: %zu of %zu", i, m.size()); c.observe(show_seq(m));
        }
    }
    c.flush(); CHECK(life.live.empty(), "owning objects: %zu values left after popping everything", life.live.size());
}

typedef estd::experimental::ValueNode<long, estd::experimental::double_node_base> DN;
typedef estd::internal::list_base<long, DN, estd::experimental_std_allocator<DN>, estd::inlinevalue_node_traits_new_base<DN, estd::experimental_std_allocator<DN>, estd::nothing_allocator<long>>> DList;
SCENARIO_SHARDED(double_list, 6, 8, 4, 8)
{
    static std::set<void*> mine; for(void* p : mine) free(p); mine.clear();
    static std::set<void*> b0; blocks = &b0; b0.clear(); DList l; std::vector<long> m;
    struct Free { ~Free() { counting = false; for(void* p : *blocks) free(p); blocks->clear(); } } fr;
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(show_seq(m), c.bound - d)) return;
        long v = 10 + c.pick(2); int op = c.pick(6), p = m.empty() ? 0 : c.pick(m.size());
        if(op == 5 && m.empty() && c.pick(1)) return;
        counting = true;
        switch(op)
        {
            case 0: { const long t = v; l.push_front(t); counting = false; m.insert(m.begin(), v); break; }
            case 1: { const long t = v; l.push_back(t); counting = false; m.push_back(v); break; }
            case 2: l.push_front(long(v)); counting = false; m.insert(m.begin(), v); break;
            case 3: l.push_back(long(v)); counting = false; m.push_back(v); break;
            case 4: l.emplace_front(v); counting = false; m.insert(m.begin(), v); break;
            case 5: { auto it = l.begin(); it += p; auto r = l.insert(it, v); counting = false; CHECK(*r == v, "insert: returned iterator"); m.insert(m.begin() + p, v); break; }
        }
        counting = false;
        CHECK(l.empty() == m.empty(), "double list: empty");
        CHECK(l.back() == m.back(), "double list: back is %ld, expected %ld", l.back(), m.back());
        size_t i = 0; auto last = l.begin();
        for(auto it = l.begin(); it != l.end(); ++it, ++i) { CHECK(i < m.size(), "double list: iterates too far"); CHECK(*it == m[i], "double list: position %zu is %ld, expected %ld", i, (long)*it, m[i]); last = it; }
        CHECK(i == m.size(), "double list: %zu of %zu", i, m.size());
        for(i = m.size(); i-- > 0;) { CHECK(*last == m[i], "double list: backwards: position %zu is %ld, expected %ld", i, (long)*last, m[i]); if(i) { if(i & 1) --last; else last--; } }
        CHECK(last == l.begin(), "double list: walking back does not end at the beginning");
        if(m.size() >= 3) { auto it = l.begin(); it += 2; CHECK(*it == m[2], "double list: +="); it -= 1; CHECK(*it == m[1], "double list: -="); }
        c.observe(show_seq(m));
    }
}

// list of caller-owned nodes linked in both directions
struct INode : estd::experimental::forward_node_base_base<INode*> { int val; INode* prev_ = nullptr; INode() : estd::experimental::forward_node_base_base<INode*>(nullptr) {} };
SCENARIO_SHARDED(plain_intrusive, 7, 9, 4, 8)
{
    typedef estd::internal::list::intrusive_forward<INode> L; INode n[NN]; for(int i = 0; i < NN; i++) n[i].val = i; L l; std::vector<int> m;
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(show_seq(m), c.bound - d)) return;
        switch(c.pick(6))
        {
            case 0: { int k = unused(c, m); if(k < 0) return; l.push_front(n[k]); m.insert(m.begin(), k); break; }
            case 1: if(m.empty()) return; l.pop_front(); m.erase(m.begin()); break;
            case 2: { if(m.empty()) return; int k = unused(c, m); if(k < 0) return; int p = c.pick(m.size()); auto r = l.insert_after(L::const_iterator(&n[m[p]]), n[k]); CHECK(r.current_ == &n[k], "insert_after: returned iterator"); m.insert(m.begin() + p + 1, k); break; }
            case 3: { if(m.size() < 2) return; int p = c.pick(m.size() - 1); auto r = l.erase_after(L::const_iterator(&n[m[p]])); m.erase(m.begin() + p + 1); CHECK(r.current_ == (p + 1u < m.size() ? &n[m[p + 1]] : nullptr), "erase_after: returned iterator"); break; }
            case 4: { if(m.size() < 2) return; int k = unused(c, m); if(k < 0) return; int p = c.pick(m.size() - 1); l.replace_after(L::const_iterator(&n[m[p]]), n[k]); m[p + 1] = k; break; }
            case 5: l.clear(); m.clear(); break;
        }
        CHECK(l.empty() == m.empty(), "plain list: empty"); if(!m.empty()) CHECK(&l.front() == &n[m[0]], "plain list: front");
        size_t i = 0; for(auto& x : l) { CHECK(i < m.size(), "plain list: iterates too far"); CHECK(&x == &n[m[i]], "plain list: position %zu", i); ++i; } CHECK(i == m.size(), "plain list: %zu of %zu", i, m.size());
        i = 0; for(auto it = l.cbegin(); it != l.cend(); it++) { CHECK((*it).val == m[i], "plain list: const iteration"); ++i; } CHECK(i == m.size(), "plain list: const iteration length");
        c.observe(show_seq(m));
    }
}
