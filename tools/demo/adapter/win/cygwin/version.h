#pragma once
#define CYGWIN_VERSION_API_MINOR 340
#define CYGWIN_VERSION_CYGWIN_CONV 181
