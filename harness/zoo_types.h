#pragma once
#include "zoo.h"
using namespace ktl;
using namespace zoo;
// with ZOO_THROW, the leaves that have an arena per instance report some failures by throwing
#ifdef ZOO_THROW
template<int I, unsigned F> using leafR = leaf::X<I, F>;
#else
template<int I, unsigned F> using leafR = leaf::R<I, F>;
#endif
// leaf shorthands: r* = one arena per instance, h* = one arena per id; o = owns, m = max_size, c = construct+destroy
template<int I> using r   = leafR<I, 0>;
template<int I> using ro  = leafR<I, leaf::OWNS>;
template<int I> using rm  = leafR<I, leaf::MAXS>;
template<int I> using rom = leafR<I, leaf::OWNS | leaf::MAXS>;
template<int I> using roc = leafR<I, leaf::OWNS | leaf::CD>;
template<int I> using roC = leafR<I, leaf::OWNS | leaf::CONS>;
template<int I> using roD = leafR<I, leaf::OWNS | leaf::DEST>;
template<int I> using rc  = leafR<I, leaf::CD>;
template<int I> using romc = leafR<I, leaf::ALL>;
template<int I> using h   = leaf::H<I, 0>;
template<int I> using ho  = leaf::H<I, leaf::OWNS>;
template<int I> using hom = leaf::H<I, leaf::OWNS | leaf::MAXS>;
template<int I> using hoc = leaf::H<I, leaf::OWNS | leaf::CD>;
template<int I> using homc = leaf::H<I, leaf::ALL>;
template<size_t N> using lin = ktl::linear_allocator<N>;
template<size_t N> using thr = ktl::threshold<N>;
using mal = ktl::mallocator;
using nul = ktl::null_allocator;
