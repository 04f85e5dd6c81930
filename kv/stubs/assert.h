#include <cassert>
