ID="C05-pop-back-wrap"; PROP="C05"
NEEDS="a deque holding one element in the final slot of its ring, popped from the back"
BREAKS="pop_back decides emptiness from unwrapped positions, so a deque drained across the wrap reports itself full"
EDITS=[("queue.h","""        decrement(&m_back);

        if(m_front == m_back) m_empty = true;

        return true;
    }

    bool pop_front()""","""        if(m_front + 1 == m_back) m_empty = true;

        decrement(&m_back);

        return true;
    }

    bool pop_front()""")]
DEMO=r"""
#include <estd/queue.h>
int main() { estd::layer1::deque<int, 3> d; d.push_back(7); d.pop_front(); d.push_back(7); d.pop_front(); for(int r = 0; r < 6; r++) { if(r % 2) d.push_front(r); else d.push_back(r); if(d.size() != 1 || d.front() != r) return 1; d.pop_back(); if(!d.empty() || d.size() != 0) return 1; } return 0; }
"""
