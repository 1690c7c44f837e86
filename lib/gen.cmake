# Generates, outside /repo, the files that /repo/CMakeLists.txt generates while
# configuring: the Unicode tables and system.cpp (the embedded Scheme libraries).
# cmake -DR=/repo -DO=<out> -P gen.cmake
execute_process(
  COMMAND sed -E "s/^([^;]*);([^;]*;){01}([^;]*).*$/case 0x\\1: return \\3;/g" ${R}/configure/UnicodeData.txt
  OUTPUT_VARIABLE PROPERTY)
execute_process(
  COMMAND sed -E "s/^([^;]*);([^;]*;){06}([^;]*).*$/case 0x\\1: return \\3;/g" ${R}/configure/UnicodeData.txt
  COMMAND grep -e "case 0x.\\+: return .\\+;"
  OUTPUT_VARIABLE DIGIT_VALUE)
execute_process(
  COMMAND sed -E "s/^([^;]*);([^;]*;){11}([^;]*).*$/case 0x\\1: return 0x\\3;/g" ${R}/configure/UnicodeData.txt
  COMMAND grep -e "case 0x.\\+: return 0x.\\+;"
  OUTPUT_VARIABLE UPCASE)
execute_process(
  COMMAND sed -E "s/^([^;]*);([^;]*;){12}([^;]*).*$/case 0x\\1: return 0x\\3;/g" ${R}/configure/UnicodeData.txt
  COMMAND grep -e "case 0x.\\+: return 0x.\\+;"
  OUTPUT_VARIABLE DOWNCASE)
file(WRITE ${O}/include/meevax/unicode/digit_value.hpp "${DIGIT_VALUE}")
file(WRITE ${O}/include/meevax/unicode/downcase.hpp    "${DOWNCASE}")
file(WRITE ${O}/include/meevax/unicode/property.hpp    "${PROPERTY}")
file(WRITE ${O}/include/meevax/unicode/upcase.hpp      "${UPCASE}")
file(GLOB LIBRARY_SOURCES ${R}/library/*.ss)
foreach(EACH IN LISTS LIBRARY_SOURCES)
  get_filename_component(FILENAME ${EACH} NAME)
  execute_process(
    COMMAND cat ${EACH}
    COMMAND awk -f ${R}/script/format.awk
    OUTPUT_VARIABLE ${FILENAME})
endforeach()
set(PROJECT_NAME meevax)
set(meevax_SYSTEM_NAME linux)
set(CMAKE_SYSTEM_PROCESSOR x86_64)
set(CMAKE_SHARED_LIBRARY_PREFIX lib)
set(CMAKE_SHARED_LIBRARY_SUFFIX .so)
set(CMAKE_INSTALL_PREFIX /usr/local)
execute_process(COMMAND cat ${R}/VERSION COMMAND tr -d \n OUTPUT_VARIABLE PROJECT_VERSION)
set(CMAKE_SYSTEM_NAME Linux)
configure_file(${R}/configure/system.cpp ${O}/system.cpp)
