set(yaml-cpp_FOUND TRUE)
