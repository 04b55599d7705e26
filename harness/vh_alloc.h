// A conforming heap allocator for estd containers (the role of the user's allocator): malloc, realloc, free.
#pragma once
#include <stdlib.h>
#include "estd/memory.h"
#include <estd/internal/container/traditional_accessor.h>
#include <estd/internal/container/iterator.h>
template <class T> class heap_alloc
{
public:
    static constexpr bool is_locking() { return false; }
#ifdef FEATURE_ESTD_ALLOCATOR_LOCKCOUNTER
    typedef typename estd::nothing_allocator<T>::lock_counter lock_counter;
#endif
    typedef T value_type;
    typedef value_type* pointer;
    typedef const void* const_void_pointer;
    typedef value_type* handle_type;
    typedef size_t size_type;
    typedef estd::internal::handle_with_offset_raw<pointer> handle_with_offset;
    typedef T& accessor;
    typedef estd::internal::locking_iterator<heap_alloc, estd::internal::traditional_accessor<value_type> > iterator;
    static handle_type invalid() { return 0; }
    struct handle_with_size { handle_type h; size_t m; handle_with_size(handle_type h, size_t size = 0) : h(h), m(size) {} size_t size() const { return m; } operator handle_type() const { return h; } };
    T& lock(handle_type h, size_t pos = 0, size_t = 0) { return *(h + pos); }
    T& lock(handle_with_offset h, size_t pos = 0, size_t = 0) { return *(h.handle() + pos); }
    const T& clock(handle_type h, size_t pos = 0, size_t = 0) const { return *(h + pos); }
    const T& clock(const handle_with_offset& h, size_t pos = 0, size_t = 0) const { return *(h.handle() + pos); }
    void unlock(handle_type) { }
    void cunlock(handle_type) const {}
    pointer allocate(size_t size) { return (pointer)malloc(size * sizeof(T)); }
    handle_with_size allocate_ext(size_t size) { return handle_with_size(allocate(size), size); }
    size_t size(const handle_with_size& h) const { return h.size(); }
    void deallocate(handle_type p, size_t) { free(p); }
    void deallocate(handle_with_size h) { free((void*)(handle_type)h); }
    handle_type reallocate(handle_type h, size_t size) { return (pointer)realloc((void*)h, size * sizeof(T)); }
    handle_with_size reallocate_ext(handle_type h, size_t size) { return handle_with_size(reallocate(h, size), size); }
    handle_with_offset offset(handle_type h, ptrdiff_t size) const { return handle_with_offset(h + size); }
    value_type& lock(const estd::internal::handle_with_offset_raw<pointer, size_t>& a) const { return *a.handle(); }
    static constexpr bool is_stateful() { return false; }
    static constexpr bool is_singular() { return false; }
    static constexpr bool has_size() { return false; }
    static unsigned max_size() { return 99999; }
};
