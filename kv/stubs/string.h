#include <cstring>
