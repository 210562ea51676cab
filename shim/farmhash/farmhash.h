#include <farmhash.h>
