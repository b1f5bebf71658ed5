// Stand-in for the header that CMake's generate_export_header writes.
#pragma once
#define ReiserRT_Core_EXPORT
#define ReiserRT_Core_NO_EXPORT
#define ReiserRT_Core_DEPRECATED
