// A heap allocator with the interface the library's growable containers expect.
// Bounds are exact (every allocation is its own malloc block), so ASan sees any overrun.
#pragma once
#include <estd/memory.h>
#include <estd/internal/container/traditional_accessor.h>
#include <estd/internal/container/iterator.h>
#include <cstddef>
#include <cstdlib>

struct heap_stats { long live = 0, allocs = 0, frees = 0; void reset() { live = allocs = frees = 0; } };
inline heap_stats g_heap;

template <class T>
class heap_allocator
{
public:
    static constexpr bool is_locking() { return false; }
    typedef T value_type;
    typedef value_type* pointer;
    typedef const void* const_void_pointer;
    typedef value_type* handle_type;
    typedef size_t size_type;
    typedef estd::internal::handle_with_offset_raw<pointer> handle_with_offset;
    typedef T& accessor;
    typedef estd::internal::locking_iterator<heap_allocator, estd::internal::traditional_accessor<value_type> > iterator;

    static handle_type invalid() { return nullptr; }

    class handle_with_size
    {
        handle_type h; size_t m_size;
    public:
        handle_with_size(handle_type h, size_t size = 0) : h(h), m_size(size) {}
        size_t size() const { return m_size; }
        operator handle_type() const { return h; }
    };

    T& lock(handle_type h, size_t pos = 0, size_t = 0) { return *(h + pos); }
    T& lock(handle_with_offset h, size_t pos = 0, size_t = 0) { return *(h.handle() + pos); }
    const T& clock(handle_type h, size_t pos = 0, size_t = 0) const { return *(h + pos); }
    const T& clock(const handle_with_offset& h, size_t pos = 0, size_t = 0) const { return *(h.handle() + pos); }
    void unlock(handle_type) {}
    void cunlock(handle_type) const {}

    static pointer fresh(size_t n)
    {
        ++g_heap.allocs; ++g_heap.live;
        size_t b = n * sizeof(T);
        pointer p = (pointer)malloc(b ? b : 1);
        memset((void*)p, 0xA5, b);
        return p;
    }
    pointer allocate(size_t n) { return fresh(n); }
    handle_with_size allocate_ext(size_t n) { return handle_with_size(allocate(n), n); }
    size_t size(const handle_with_size& h) const { return h.size(); }
    void deallocate(handle_type p, size_t) { if(p) { ++g_heap.frees; --g_heap.live; } free(p); }
    void deallocate(handle_with_size h) { deallocate((handle_type)h, 0); }
    handle_type reallocate(handle_type h, size_t n)
    {
        if(!h) { ++g_heap.allocs; ++g_heap.live; }
        size_t b = n * sizeof(T);
        return (pointer)realloc((void*)h, b ? b : 1);
    }
    handle_with_size reallocate_ext(handle_type h, size_t n) { return handle_with_size(reallocate(h, n), n); }
    handle_with_offset offset(handle_type h, ptrdiff_t n) const { return handle_with_offset(h + n); }
    value_type& lock(const estd::internal::handle_with_offset_raw<pointer, size_t>& a) const { return *a.handle(); }
    static constexpr bool is_stateful() { return false; }
    static constexpr bool is_singular() { return false; }
    static constexpr bool has_size() { return false; }
    static unsigned max_size() { return 99999; }
};
