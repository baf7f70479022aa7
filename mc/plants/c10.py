ID="C10-consecutive-matches"; PROP="C10"
NEEDS="two neighbouring nodes that both match a removal, neither of them at the front"
BREAKS="after unlinking a node the walk treats it as the predecessor, so the next matching neighbour stays in the list"
EDITS=[("forward_list.h","""                if (first_only) return;
            }
            else
                previous = current;

            current = _next;
        }
    }""","""                if (first_only) return;
            }

            if(!matched || previous != before_beginning_node())
                previous = current;

            current = _next;
        }
    }""")]
DEMO=r"""
#include <estd/forward_list.h>
struct N : estd::experimental::forward_node_base { int v; N(int v) : v(v) {} };
int main()
{
    N a(1), b(7), c(7), d(2);
    estd::intrusive_forward_list<N> l;
    l.push_front(d); l.push_front(c); l.push_front(b); l.push_front(a);
    l.remove_if([](N& n) { return n.v == 7; });
    int sum = 0;
    for(auto i = l.begin(); i != l.end(); ++i) sum += (*i).v;
    return sum == 3 ? 0 : 1;
}
"""
