/* nothing of it is used beside the intrinsics of arm_neon.h */
#include <stdint.h>
