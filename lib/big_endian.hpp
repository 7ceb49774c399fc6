// Force-included before the library's sources to make them believe they run on a
// big-endian machine. Every standard header the library could use comes first.
#include <algorithm>
#include <array>
#include <atomic>
#include <bit>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <optional>
#include <ranges>
#include <span>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#define native big
#ifdef BE_PORTABLE  // take the branches written for other compilers
#undef __GNUC__
#undef __clang__
#endif
