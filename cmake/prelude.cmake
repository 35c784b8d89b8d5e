# Included by CMake right after the top-level project() call (CMAKE_PROJECT_dynamic_trajectory_generator_INCLUDE).
# 1. The project calls add_test() but never enable_testing(), so ctest would see no tests.
enable_testing()
# 2. The project looks for "nlopt" but apt's config file is NLoptConfig.cmake with the
#    target NLopt::nlopt, while the project links and depends on a target "nlopt".
find_package(NLopt REQUIRED CONFIG)
add_library(nlopt ALIAS NLopt::nlopt)
# 3. Options of a build flavour for the dynamic layer only (a list).
if(VERIF_DYNAMIC_OPTIONS)
  cmake_language(DEFER CALL target_compile_options dynamic_trajectory_generator PRIVATE ${VERIF_DYNAMIC_OPTIONS})
endif()
