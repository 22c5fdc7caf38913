#include "rcutils/types/string_array.h"
