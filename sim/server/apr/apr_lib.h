#include "apr_strings.h"
