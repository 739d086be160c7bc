#include "algorithm"
#include "array"
#include "cassert"
#include "cctype"
#include "cerrno"
#include "cfloat"
#include "cinttypes"
#include "climits"
#include "cmath"
#include "complex"
#include "cstddef"
#include "cstdint"
#include "cstdio"
#include "cstdlib"
#include "cstring"
#include "ctime"
#include "ctype.h"
#include "errno.h"
#include "exception"
#include "fftw3.h"
#include "float.h"
#include "fstream"
#include "functional"
#include "immintrin.h"
#include "initializer_list"
#include "inttypes.h"
#include "iomanip"
#include "ios"
#include "iostream"
#include "istream"
#include "iterator"
#include "limits"
#include "limits.h"
#include "math.h"
#include "memory"
#include "mm_malloc.h"
#include "numeric"
#include "ostream"
#include "sstream"
#include "stddef.h"
#include "stdexcept"
#include "stdint.h"
#include "stdio.h"
#include "stdlib.h"
#include "string"
#include "string.h"
#include "time.h"
#include "type_traits"
#include "utility"
#include "vector"
#include "xmmintrin.h"
