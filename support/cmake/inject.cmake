# Included by project(GPRcpp): what the extension module needs on CPython 3.12.
include_directories(BEFORE ${CMAKE_BINARY_DIR}/overlay)
function(verif_adjust)
  set_target_properties(GPRpy PROPERTIES SUFFIX .so)
endfunction()
cmake_language(DEFER CALL verif_adjust)
