# Read at project() time (CMAKE_PROJECT_INCLUDE). The libprov submodule is empty
# here, and add_subdirectory(libprov) would stop the configure run: skip it, and
# take the two targets that link to libprov out of "all".
if(NOT EXISTS "${CMAKE_SOURCE_DIR}/libprov/CMakeLists.txt")
  function(add_subdirectory dir)
    if(dir STREQUAL "libprov")
      message(STATUS "libprov is empty: left out")
    else()
      _add_subdirectory(${dir} ${ARGN})
    endif()
  endfunction()
  function(vp_without_libprov)
    foreach(t gost_prov lib_gost_prov)
      if(TARGET ${t})
        set_target_properties(${t} PROPERTIES EXCLUDE_FROM_ALL ON)
      endif()
    endforeach()
  endfunction()
  cmake_language(DEFER DIRECTORY "${CMAKE_SOURCE_DIR}" CALL vp_without_libprov)
endif()
