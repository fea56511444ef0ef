// Minimal C++17 stand-in for the Kokkos mdspan reference implementation, holding
// only what MACIS uses (see DESIGN.md, "mdspan shim").  Not part of MACIS.
#pragma once
#include <array>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <vector>
#include <tuple>
#include <type_traits>
#include <utility>

#define MDSPAN_IMPL_STANDARD_NAMESPACE Kokkos
#define MDSPAN_IMPL_PROPOSED_NAMESPACE Experimental

namespace Kokkos {

inline constexpr std::size_t dynamic_extent = static_cast<std::size_t>(-1);

template <class IndexType, std::size_t Rank>
struct dextents {
  using index_type = IndexType;
  std::array<IndexType, Rank> e{};
  static constexpr std::size_t rank() { return Rank; }
  constexpr dextents() = default;
  template <class... I, class = std::enable_if_t<sizeof...(I) == Rank>>
  constexpr explicit dextents(I... i) : e{static_cast<IndexType>(i)...} {}
  constexpr IndexType extent(std::size_t r) const { return e[r]; }
};

struct full_extent_t {
  explicit full_extent_t() = default;
};
inline constexpr full_extent_t full_extent{};

struct layout_left {};
struct layout_stride {};

template <class T, class Extents, class Layout = layout_left>
class mdspan;

template <class T, class IndexType, std::size_t Rank, class Layout>
class mdspan<T, dextents<IndexType, Rank>, Layout> {
 public:
  using extents_type = dextents<IndexType, Rank>;
  using element_type = T;
  using value_type = std::remove_cv_t<T>;
  using index_type = IndexType;
  using size_type = std::make_unsigned_t<IndexType>;
  using data_handle_type = T*;
  using reference = T&;
  using layout_type = Layout;

  static constexpr std::size_t rank() { return Rank; }

  constexpr mdspan() = default;
  constexpr mdspan(const mdspan&) = default;
  constexpr mdspan(mdspan&&) = default;
  constexpr mdspan& operator=(const mdspan&) = default;
  constexpr mdspan& operator=(mdspan&&) = default;

  template <class... I,
            class = std::enable_if_t<sizeof...(I) == Rank &&
                                     (std::is_convertible_v<I, IndexType> &&
                                      ...)>>
  constexpr explicit mdspan(T* p, I... i)
      : p_(p), ext_{static_cast<IndexType>(i)...} {
    set_left();
  }

  // conversion from another element type / layout; a strided span that is
  // viewed as layout_left is taken to be contiguous, as in the reference
  // implementation (whose precondition says it has to be).
  template <class U, class L2,
            class = std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]> &&
                                     !(std::is_same_v<U, T> &&
                                       std::is_same_v<L2, Layout>)>>
  constexpr mdspan(const mdspan<U, dextents<IndexType, Rank>, L2>& o)
      : p_(o.data_handle()) {
    for(std::size_t r = 0; r < Rank; ++r) ext_[r] = o.extent(r);
    if constexpr(std::is_same_v<Layout, layout_left>)
      set_left();
    else
      for(std::size_t r = 0; r < Rank; ++r) str_[r] = o.stride(r);
  }

  template <class... I>
  constexpr reference operator()(I... i) const {
    static_assert(sizeof...(I) == Rank);
    const std::array<std::size_t, Rank> ix{static_cast<std::size_t>(i)...};
    std::size_t off = 0;
    for(std::size_t r = 0; r < Rank; ++r) off += ix[r] * str_[r];
    return p_[off];
  }

  constexpr T* data_handle() const noexcept { return p_; }
  constexpr index_type extent(std::size_t r) const noexcept { return ext_[r]; }
  constexpr index_type stride(std::size_t r) const noexcept { return str_[r]; }
  constexpr size_type size() const noexcept {
    size_type s = 1;
    for(auto x : ext_) s *= x;
    return s;
  }
  constexpr bool empty() const noexcept { return size() == 0; }
  constexpr extents_type extents() const noexcept {
    extents_type e;
    e.e = ext_;
    return e;
  }

  // shim-internal
  static constexpr mdspan make_strided(T* p,
                                       std::array<IndexType, Rank> e,
                                       std::array<std::size_t, Rank> s) {
    mdspan m;
    m.p_ = p;
    m.ext_ = e;
    m.str_ = s;
    return m;
  }

 private:
  constexpr void set_left() {
    std::size_t s = 1;
    for(std::size_t r = 0; r < Rank; ++r) {
      str_[r] = s;
      s *= ext_[r];
    }
  }
  T* p_ = nullptr;
  std::array<IndexType, Rank> ext_{};
  std::array<std::size_t, Rank> str_{};
};

namespace Experimental {

namespace shim_detail {
template <class S, class = void>
struct slice {  // integral index: drops the rank
  static constexpr std::size_t lo(const S& s) {
    return static_cast<std::size_t>(s);
  }
  static constexpr std::size_t hi(const S& s, std::size_t) { return lo(s) + 1; }
  static constexpr bool drops = true;
};
template <>
struct slice<full_extent_t> {
  static constexpr std::size_t lo(const full_extent_t&) { return 0; }
  static constexpr std::size_t hi(const full_extent_t&, std::size_t e) {
    return e;
  }
  static constexpr bool drops = false;
};
template <class A, class B>
struct slice<std::pair<A, B>> {
  static constexpr std::size_t lo(const std::pair<A, B>& s) {
    return static_cast<std::size_t>(s.first);
  }
  static constexpr std::size_t hi(const std::pair<A, B>& s, std::size_t) {
    return static_cast<std::size_t>(s.second);
  }
  static constexpr bool drops = false;
};
}  // namespace shim_detail

template <class T, class I, std::size_t Rank, class Layout, class... S>
constexpr auto submdspan(const mdspan<T, dextents<I, Rank>, Layout>& m,
                         S... s) {
  static_assert(sizeof...(S) == Rank);
  constexpr std::size_t NR =
      (0 + ... + (shim_detail::slice<S>::drops ? 0 : 1));
  const std::array<bool, Rank> drop{shim_detail::slice<S>::drops...};
  std::array<std::size_t, Rank> lo{shim_detail::slice<S>::lo(s)...}, hi{};
  {
    std::size_t r = 0;
    ((hi[r] = shim_detail::slice<S>::hi(s, m.extent(r)), ++r), ...);
  }
  T* p = m.data_handle();
  std::array<I, NR> e{};
  std::array<std::size_t, NR> st{};
  std::size_t k = 0;
  for(std::size_t r = 0; r < Rank; ++r) {
    p += lo[r] * m.stride(r);
    if(!drop[r]) {
      e[k] = hi[r] - lo[r];
      st[k] = m.stride(r);
      ++k;
    }
  }
  return mdspan<T, dextents<I, NR>, layout_stride>::make_strided(p, e, st);
}

}  // namespace Experimental
}  // namespace Kokkos
