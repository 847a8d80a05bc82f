/* the system headers as Linux has them, then a NetBSD identity for the code under test */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/random.h>
#define __NetBSD__ 1
