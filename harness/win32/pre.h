/* pre-included when the Windows branches (or those of a C library without dlinfo) are analysed:
   after this the system headers no longer identify themselves */
#include <limits.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <wchar.h>
#ifdef __cplusplus
#include <string>
#include <vector>
#include <iostream>
#include <functional>
#include <cstddef>
#endif
#undef __GLIBC__
#undef __linux__
#undef __unix__
#undef linux
