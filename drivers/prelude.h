// Prelude of every translation unit of the replay drivers (force-included into the repository's sources).
#pragma once
#include <array>
#include <cassert>
#include <cctype>
#include <cstddef>
#include <deque>
#include <iterator>
#include <list>
#include <memory>
#include <queue>
#include <stack>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <cerrno>
#include <cfloat>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>

struct ExitCalled { int code; };
[[noreturn]] inline void vc_exit(int c) { throw ExitCalled{c}; }
#define exit vc_exit
#define private public
#define protected public

