set(Python_FOUND TRUE)
