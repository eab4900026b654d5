#pragma once
#include "absl/base/attributes.h"
#ifndef ABSL_PREDICT_TRUE
#define ABSL_PREDICT_TRUE(x) (x)
#define ABSL_PREDICT_FALSE(x) (x)
#define ABSL_ARRAYSIZE(a) (sizeof(a) / sizeof((a)[0]))
#endif
