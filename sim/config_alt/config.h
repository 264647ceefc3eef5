/* A machine without mmap, posix_memalign and sysinfo. */
#include "../config/config.h"
#undef HAVE_MMAP
#undef HAVE_POSIX_MEMALIGN
#undef HAVE_SYSINFO
#undef HAVE_STRUCT_SYSINFO
#undef HAVE_STRUCT_SYSINFO_TOTALRAM
#undef HAVE_STRUCT_SYSINFO_MEM_UNIT
#undef HAVE_SYS_SYSINFO_H
