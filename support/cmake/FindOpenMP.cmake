# code/cpp/CMakeLists.txt presets the OpenMP flags of Homebrew's libomp on
# macOS. Drop them and let CMake's own module find the compiler's.
foreach(var OpenMP_C_FLAGS OpenMP_C_LIB_NAMES OpenMP_CXX_FLAGS
            OpenMP_CXX_LIB_NAMES OpenMP_omp_LIBRARY)
  unset(${var})
endforeach()
include(${CMAKE_ROOT}/Modules/FindOpenMP.cmake)
