// BOUND: sequenced indices, alone and with ordered, hashed, random access and further sequenced indices; up to 5 elements with symbolic keys (sorting: all order patterns of 4, all 0-1 sequences of 8, structured ones of 16; range relocation: all positions in 10); every operand position and range; every permutation for rearrange; sources of up to 3 elements for merge and splice with every refusal pattern
#define POS sequenced
#define OTHER random_access
#include "C10.h"
