// Analysis harness: plain-loop definitions of copying and searching algorithms over contiguous iterators. They are more
// specialised overloads of the standard templates, so calls made in the repository resolve to them during analysis.
#pragma once
#include "std_model.h"
namespace std {
#define SVSA_IT1 __gnu_cxx::__normal_iterator<P, C>
#define SVSA_IT2 __gnu_cxx::__normal_iterator<Q, D>
template <class P, class C, class T> constexpr SVSA_IT1 find(SVSA_IT1 b, SVSA_IT1 e, const T& v) {
    for (; b != e; ++b) {
        if (*b == v) {
            break;
        }
    }
    return b;
}
template <class P, class T> constexpr P* find(P* b, P* e, const T& v) {
    for (; b != e; ++b) {
        if (*b == v) {
            break;
        }
    }
    return b;
}
template <class P, class C, class Q, class D> constexpr SVSA_IT2 copy(SVSA_IT1 b, SVSA_IT1 e, SVSA_IT2 o) {
    for (; b != e; ++b) {
        *o = *b;
        ++o;
    }
    return o;
}
template <class P, class Q> constexpr Q* copy(P* b, P* e, Q* o) {
    for (; b != e; ++b) {
        *o = *b;
        ++o;
    }
    return o;
}
template <class P, class C, class Q> constexpr Q* copy(SVSA_IT1 b, SVSA_IT1 e, Q* o) {
    for (; b != e; ++b) {
        *o = *b;
        ++o;
    }
    return o;
}
template <class P, class Q, class D> constexpr SVSA_IT2 copy(P* b, P* e, SVSA_IT2 o) {
    for (; b != e; ++b) {
        *o = *b;
        ++o;
    }
    return o;
}
template <class P, class C, class Q, class D> constexpr SVSA_IT2 copy_backward(SVSA_IT1 b, SVSA_IT1 e, SVSA_IT2 o) {
    while (e != b) {
        --e;
        --o;
        *o = *e;
    }
    return o;
}
template <class P, class Q> constexpr Q* copy_backward(P* b, P* e, Q* o) {
    while (e != b) {
        --e;
        --o;
        *o = *e;
    }
    return o;
}
template <class P, class C, class N, class Q, class D> constexpr SVSA_IT2 copy_n(SVSA_IT1 b, N n, SVSA_IT2 o) {
    for (N i = 0; i < n; ++i) {
        *o = *b;
        ++b;
        ++o;
    }
    return o;
}
template <class P, class C, class T> constexpr void fill(SVSA_IT1 b, SVSA_IT1 e, const T& v) {
    for (; b != e; ++b) {
        *b = v;
    }
}
#undef SVSA_IT1
#undef SVSA_IT2
}
