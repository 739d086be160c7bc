
#include "__vcore.h"
#undef assert
#define assert(x) __vassert(static_cast<bool>(x))
