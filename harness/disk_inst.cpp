// one instantiation per object file (-DSORT_T=type or -DTABLE_T=type), to compile in parallel
#include "disk_common.h"
#ifdef SORT_T
template void sort_body<SORT_T>(int, int, int, int, int, int, int, uint64_t);
#endif
#ifdef TABLE_T
template void table_body<TABLE_T>(int, int, int, int, uint64_t);
#endif
