// Plain-loop versions of the standard searches: the library's own are unrolled four times, which hides what they do from
// the path analysis.  Declared before <algorithm>, so that overload resolution picks them for vector iterators and pointers.
#pragma once
#include <bits/c++config.h>
#include <bits/stl_iterator_base_types.h>
#include <bits/stl_iterator.h>
namespace std {
template<typename P, typename C, typename F>
__gnu_cxx::__normal_iterator<P, C> __find_if(__gnu_cxx::__normal_iterator<P, C> a, __gnu_cxx::__normal_iterator<P, C> b, F f, random_access_iterator_tag)
{
    for (; a != b; ++a)
        if (f(a))
            return a;
    return b;
}
template<typename T, typename F>
T *__find_if(T *a, T *b, F f, random_access_iterator_tag)
{
    for (; a != b; ++a)
        if (f(a))
            return a;
    return b;
}
}
