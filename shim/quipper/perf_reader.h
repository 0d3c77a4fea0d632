#include "vpquipper.h"
