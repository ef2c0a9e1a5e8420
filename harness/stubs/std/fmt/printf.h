#include "format.h"
