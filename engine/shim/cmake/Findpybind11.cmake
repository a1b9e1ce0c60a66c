# records what a project asks of pybind11
set(pybind11_FOUND TRUE)
if(NOT TARGET pybind11::module)
  add_library(pybind11::module INTERFACE IMPORTED GLOBAL)
  add_library(pybind11::pybind11 INTERFACE IMPORTED GLOBAL)
endif()
function(pybind11_add_module name)
  set(src ${ARGN})
  list(REMOVE_ITEM src MODULE SHARED THIN_LTO NO_EXTRAS EXCLUDE_FROM_ALL OPT_SIZE)
  file(APPEND ${CMAKE_BINARY_DIR}/modules.txt "${name};${src}\n")
  add_library(${name} MODULE ${src})
endfunction()
