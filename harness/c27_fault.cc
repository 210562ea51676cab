// The stand-ins of C26.
#include "c26_fault.cc"
