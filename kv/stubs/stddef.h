#include <cstddef>
