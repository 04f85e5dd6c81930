#include <cstdlib>
