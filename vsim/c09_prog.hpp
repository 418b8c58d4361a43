// C09: the programs the nodes of a fleet execute (bytecode), shared by the nodes and the simulator.
// Nothing here depends on the library.
#pragma once
#include <cstddef>
namespace prog
{
enum Op { END = 0, UPDATE_U = 1, UPDATE_V = 2, RESULT = 3, APPEND_HASH = 4, APPEND_MSG = 5, COPY = 6, RANGE_MSG = 7, INTEGRAL = 8, TEXT = 9, BULK = 10, HAUL = 11 };
enum { ALG_CX = 26, ALG_ALL = 29 };             // the first 26 have a constexpr interface
enum { FLAVORS = 4 };
// value types; the ones before T_CX14_END can be built in a C++14 constant expression
enum Type
{
    // C++11
    T_BOOL, T_CHAR, T_SCHAR, T_UCHAR, T_SHORT, T_USHORT, T_INT, T_UINT, T_LONG, T_ULONG, T_LLONG, T_ULLONG, T_WCHAR, T_CHAR16, T_CHAR32,
    T_ENUM, T_ENUM16, T_ENUM8, T_FLOAT, T_DOUBLE, T_INT3, T_CHAR5, T_UCHAR4x2, T_DOUBLE2, T_ARR_INT3, T_ARR_CHAR0, T_ARR_FLOAT2, T_ARR_CHAR4, T_PAIR_IC, T_PAIR_PAIR, T_TUPLE, T_TUPLE0, T_TAGGED, T_DIGEST,
    T_CX11_END,
    // C++14: described classes
    T_POINT = T_CX11_END, T_DERIVED, T_POINTS2, T_EMPTY, T_PAIR_POINT,
    T_CX14_END,
    // C++20 constexpr; run time everywhere
    T_VEC_INT = T_CX14_END, T_VEC_CHAR, T_VEC_VEC, T_STRING, T_U16STRING, T_VEC_DOUBLE, T_VEC_PAIR,
    T_CX20_END,
    // run time only
    T_VEC_BOOL = T_CX20_END, T_DEQUE, T_LIST_STRING, T_SET, T_MAP, T_USET, T_UMAP, T_PTR, T_NULLPTR, T_WSTRING, T_VEC_ENUM, T_RT11_END,
    T_VEC_POINT = T_RT11_END, T_RT_END
};
enum { R_INT, R_CHAR, R_UCHAR, R_DOUBLE, R_SHORT, R_SIZED_INT, R_SIZED_UCHAR, R_SIZED_BOOL, R_SIZE_INT, R_SIZE_UCHAR, R_END };
}
