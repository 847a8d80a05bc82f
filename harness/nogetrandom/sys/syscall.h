/* a Linux whose headers predate getrandom */
#include_next <sys/syscall.h>
#undef SYS_getrandom
