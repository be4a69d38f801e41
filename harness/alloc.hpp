// Replaces the global allocation functions: counts live blocks and fills fresh memory with a chosen byte,
// so that a result depending on uninitialized memory differs between two runs with different fill bytes.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>

namespace al {
inline int& fill() { static int f = -1; static int none = -1; static bool off = getenv("ALLOC_NOFILL"); if( off ) none = -1; return off ? none : f; }          // -1: leave as is
inline long& live() { static long l = 0; return l; }
inline long& failAt() { static long l = -1; return l; }      // fails the nth allocation from now
inline long& total() { static long l = 0; return l; }
inline void wipe(void* p, int b, size_t n) { static void* (*volatile ms)(void*, int, size_t) = memset; ms(p, b, n); }
inline void* get(size_t n)
{
   ++total();
   if( failAt() >= 0 && failAt()-- == 0 ) throw std::bad_alloc();
   void* p = malloc(n ? n : 1);
   if( !p ) throw std::bad_alloc();
   if( fill() >= 0 ) wipe(p, fill(), n ? n : 1);
   ++live();
   return p;
}
inline void put(void* p)
{
   if( !p ) return;
   if( fill() >= 0 ) wipe(p, fill() ^ 0xff, malloc_usable_size(p));
   --live();
   free(p);
}
} // namespace al
void* operator new(size_t n) { return al::get(n); }
void* operator new[](size_t n) { return al::get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return al::get(n); } catch( ... ) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return al::get(n); } catch( ... ) { return nullptr; } }
void operator delete(void* p) noexcept { al::put(p); }
void operator delete[](void* p) noexcept { al::put(p); }
void operator delete(void* p, size_t) noexcept { al::put(p); }
void operator delete[](void* p, size_t) noexcept { al::put(p); }
