// The same programs in differently built processes
#include "scripttests.h"
