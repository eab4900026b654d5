#pragma once
#include "fake/fake_skia.h"
