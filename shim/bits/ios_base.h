#include "../se_ostream.h"
