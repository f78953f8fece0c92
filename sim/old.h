// The library as a C++98 compiler takes it, next to the other: under the name tt8.
#pragma once
#include "seq.h"
#include <climits>
#include <cstdlib>
#define ttl tt8
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wbuiltin-macro-redefined"
#undef __cplusplus
#define __cplusplus 199711L
#include "ttl/ttl.hpp"
#include "ttl/list.hpp"
#undef __cplusplus
#define __cplusplus 201703L
#pragma clang diagnostic pop
