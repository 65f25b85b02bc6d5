#include "http_core.h"
