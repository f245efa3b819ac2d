/* Vc's headers select code by compiler.  /repo is built with g++ 13, so the extraction presents
 * clang's parser to Vc as that compiler: the system headers below are parsed as usual, and only
 * then the identification macros change. */
#include <immintrin.h>
#include <x86intrin.h>
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <iomanip>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <numeric>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#undef __clang__
#undef __GNUC__
#define __GNUC__ 13
#undef __GNUC_MINOR__
#define __GNUC_MINOR__ 3
#undef __GNUC_PATCHLEVEL__
#define __GNUC_PATCHLEVEL__ 0
#define __builtin_sincosf(x,s,c) ::sincosf(x,s,c)
#define __builtin_sincos(x,s,c) ::sincos(x,s,c)
