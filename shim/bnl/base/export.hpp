// Stands in for the header CMake generates.
#pragma once
#define BNL_BASE_EXPORT
#define BNL_BASE_NO_EXPORT
