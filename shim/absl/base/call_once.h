#pragma once
#include <mutex>
namespace absl { using once_flag = std::once_flag; using std::call_once; }
