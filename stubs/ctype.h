#include "__vcore.h"
