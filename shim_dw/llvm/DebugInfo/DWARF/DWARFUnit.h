#include "llvm/DebugInfo/DWARF/DWARFContext.h"
