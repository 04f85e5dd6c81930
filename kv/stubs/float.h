#include <cfloat>
