// Standard headers that some library headers expect the including file to have brought in.
#pragma once
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <limits>
#include <memory>
#include <new>
#include <utility>
#include <vector>
using namespace std;
