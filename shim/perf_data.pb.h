#include "quipper/vpquipper.h"
