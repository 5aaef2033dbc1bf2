/* A different but equally conforming C++ host: std::sort leaves elements that compare equal in another order than libstdc++ does. */
#pragma once
#include <list>
#include <forward_list>
#define sort verif_lib_sort
#include <algorithm>
#undef sort
namespace std
{
template <class I> void sort(I a, I b)
{
  reverse(a, b);
  stable_sort(a, b);
}
template <class I, class C> void sort(I a, I b, C c)
{
  reverse(a, b);
  stable_sort(a, b, c);
}
}
