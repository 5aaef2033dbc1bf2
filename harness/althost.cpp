/* A different but equally conforming C++ host: hash tables use another hash of strings and another number of buckets,
 * and the heap hands out addresses in another order. */
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>
#include <unordered_map>

namespace std
{
size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
  const unsigned char* b = static_cast<const unsigned char*>(p);
  uint64_t h = seed ^ 0x9E3779B97F4A7C15ull;
  for (size_t i = 0; i < n; i++)
  {
    h = (h ^ b[i]) * 0x100000001B3ull;
    h ^= h >> 29;
  }
  return static_cast<size_t>(h);
}

namespace __detail
{
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
  // odd numbers instead of the primes of libstdc++
  size_t r = 3;
  while (r < n) r = r * 2 + 5;
  _M_next_resize = static_cast<size_t>(r * static_cast<double>(_M_max_load_factor));
  return r;
}
}
}

// addresses go down with every allocation, and are not reused
static char* top;
static char* bottom;

void* operator new(size_t n)
{
  n = (n + 31) & ~static_cast<size_t>(15);
  if (n > (1u << 20))
  {
    void* r = malloc(n);
    if (!r) throw std::bad_alloc();
    return r;
  }
  if (!top || static_cast<size_t>(top - bottom) < n)
  {
    bottom = static_cast<char*>(malloc(64u << 20));
    if (!bottom) throw std::bad_alloc();
    top = bottom + (64u << 20);
    top -= reinterpret_cast<uintptr_t>(top) & 15;
  }
  top -= n;
  return top;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void*) noexcept {}
void operator delete[](void*) noexcept {}
void operator delete(void*, size_t) noexcept {}
void operator delete[](void*, size_t) noexcept {}
