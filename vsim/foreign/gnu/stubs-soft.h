/* targets without a C library here: their programs are only evaluated by the compiler */
