set(Python3_FOUND TRUE)
