// Overlay: the installed abseil (20220623) has no nullability annotations.
#ifndef VERIF_ABSL_NULLABILITY_H_
#define VERIF_ABSL_NULLABILITY_H_
namespace absl {
template <typename T> using Nonnull = T;
template <typename T> using Nullable = T;
template <typename T> using NullabilityUnknown = T;
}  // namespace absl
#ifndef absl_nonnull
#define absl_nonnull
#define absl_nullable
#endif
#endif
