// The same checks with error exceptions compiled out: the returned info.
#define TLAPACK_NDEBUG 1
#include "F01_chol.cpp"
