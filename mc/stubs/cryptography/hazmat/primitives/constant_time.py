def bytes_eq(a, b):
    return a == b
