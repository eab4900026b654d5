#pragma once
#include <memory>
namespace absl {
template <typename T> using Nonnull = T;
template <typename T> using Nullable = T;
template <typename T> using NullabilityUnknown = T;
}
#define absl_nonnull
#define absl_nullable
