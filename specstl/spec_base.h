// Verification stand-ins for the C++ standard library (assumed contracts, listed as trusted).
// Only the VC generator sees these; native replay uses the real library.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <new>
#include <utility>
#include <type_traits>
#include <initializer_list>
#include <exception>
#include <limits>
#include <iterator_lite.h>
extern "C" {
void* vc_stl_alloc(size_t hint);              // object with unbounded extent
void vc_stl_free(void*);
void vc_stl_bounds(bool, const char*);        // library precondition (index in range, non-empty, ...)
void vc_stl_copy(void* dst, const void* src, size_t bytes);
void vc_stl_move(void* dst, const void* src, size_t bytes);
void vc_stl_zero(void* dst, size_t bytes);
int vc_stl_eq(const void*, const void*, size_t);
void vc_stl_sort(void* base, size_t first, size_t count, size_t elsize, void* cmp, void* ctx);
}
