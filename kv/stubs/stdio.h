#include <cstdio>
