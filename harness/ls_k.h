// Kernels for loads and stores; memory is addressed through pointer arrays so
// that the oracle can place every vector next to inaccessible pages.
#ifndef LS_K_H
#define LS_K_H
#include "vh_pairs.h"
using Fe = stdx::element_aligned_tag;
using Fv = stdx::vector_aligned_tag;
template <size_t N> using Fo = stdx::overaligned_tag<N>;
template <class U> inline U* at(const void* const* in, int a, long i) { return static_cast<U*>(const_cast<void*>(static_cast<const void* const*>(in[a])[i])); }
#define LSK(NAME) template <class V, class U, class F> [[gnu::noipa]] void NAME(const void* const* in, void* const* out, long n)
template <class V, class U, class F> constexpr int align_of()
{
  if constexpr (std::is_same_v<F, Fe>) return alignof(U);
  else if constexpr (std::is_same_v<F, Fv>) return int(stdx::memory_alignment_v<V, U>);
  else return int(F::template _S_alignment<V, U>);
}
// op, alignment in bytes in p; u = memory type
template <class U, class F, class V> void regl(const char* op, VL<V> l, kern k)
{
  vh::add({op, vh::ty_v<typename V::value_type>, vh::ty_v<U>, l.name, int(V::size()), align_of<V, U, F>(), k,
	   std::is_same_v<F, Fe> ? "element" : std::is_same_v<F, Fv> ? "vector" : "over", 0});
}
#endif
