#include <climits>
