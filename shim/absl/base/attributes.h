#pragma once
#define ABSL_MUST_USE_RESULT [[nodiscard]]
#define ABSL_HAVE_THREAD_LOCAL 1
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_ATTRIBUTE_UNUSED __attribute__((unused))
#define ABSL_ATTRIBUTE_NOINLINE __attribute__((noinline))
#define ABSL_ATTRIBUTE_ALWAYS_INLINE __attribute__((always_inline))
#define ABSL_FALLTHROUGH_INTENDED [[fallthrough]]
#define ABSL_CONST_INIT
#define ABSL_DEPRECATED(m)
