// Copy construction and copy assignment of public owner classes, present in the module exactly when they compile.
#include <new>
#include <type_traits>
#include <k52/dsp/transform/fast_fourier_transform.h>

namespace k52_copies
{
template<class T, bool = std::is_copy_constructible<T>::value> struct Construct { static void copy_construct(void* p, const T& t) { new (p) T(t); } };
template<class T> struct Construct<T, false> { static void not_copyable() {} };
template<class T, bool = std::is_copy_assignable<T>::value> struct Assign { static void copy_assign(T& p, const T& t) { p = t; } };
template<class T> struct Assign<T, false> { static void not_assignable() {} };
template<class T, bool = std::is_move_constructible<T>::value && !std::is_copy_constructible<T>::value> struct Move { static void move_construct(void* p, T& t) { new (p) T(static_cast<T&&>(t)); } };
template<class T> struct Move<T, false> { static void no_own_move() {} };
template struct Construct<k52::dsp::FastFourierTransform>;
template struct Assign<k52::dsp::FastFourierTransform>;
template struct Move<k52::dsp::FastFourierTransform>;
}
