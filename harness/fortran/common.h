/* Shared by the C and the Fortran replay of call histories (P17). */
#pragma once
#define NS 5
#define NP 3
#define NOUT 120000
enum { OP_INIT_SHELL = 1, OP_INIT_SHELLS, OP_ALLOC, OP_FREE, OP_FREES, OP_NORM, OP_COPY, OP_COPYFRESH, OP_CREATE, OP_ZERO,
       OP_INIT_PAIR, OP_INIT_PAIRS, OP_FREE_PAIR, OP_FREE_PAIRS, OP_PAIR, OP_PAIR2, OP_ERI, OP_DERIV, OP_WORKSIZE,
       OP_WORKMEM, OP_OVERLAP, OP_KE, OP_POTENTIAL, OP_INIT, OP_AGAIN, OP_RESET = 99, OP_END = 0 };
