#pragma once
#include <sys/types.h>
extern "C" {
enum { CCP_POSIX_TO_WIN_A = 0, CCP_ABSOLUTE = 0 };
typedef int cygwin_getinfo_types;
#define CW_SYNC_WINENV 42
ssize_t cygwin_conv_path(unsigned, const void *, void *, size_t);
uintptr_t cygwin_internal(cygwin_getinfo_types, ...);
}
