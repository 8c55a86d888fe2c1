3
