// BOUND: random access indices, alone and with ordered, hashed, sequenced and further random access indices; up to 5 elements with symbolic keys (sorting: all order patterns of 4, all 0-1 sequences of 8, structured ones of 16; range relocation: all positions in 10); every operand position and range; every permutation for rearrange; sources of up to 3 elements for merge and splice with every refusal pattern
#define POS random_access
#define OTHER sequenced
#include "C10.h"
