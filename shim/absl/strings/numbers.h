#include "absl/vpabsl.h"
