#include "device_ptr.h"
