// Overlay: the installed abseil (20220623) has no absl::Overload.
#ifndef VERIF_ABSL_OVERLOAD_H_
#define VERIF_ABSL_OVERLOAD_H_
namespace absl {
template <typename... T>
struct Overload final : T... {
  using T::operator()...;
  constexpr explicit Overload(T... ts) : T(ts)... {}
};
template <typename... T> Overload(T...) -> Overload<T...>;
}  // namespace absl
#endif
