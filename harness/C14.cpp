// BOUND: modify without and with rollback through every index at every position of containers of 1-3 indices of every kind, 1-4 elements with every key and bucket-collision pattern; one or two faults at any point: modifier (before or after writing), rollback, comparison, hash, equality, key extraction
#include "C14.h"
SX_ENTRY(mod1){ run_modify<S1>(3,1); }
SX_ENTRY(mod2){ hx_buckets(3); run_modify<S2>(2,1); }
SX_ENTRY(mod3){ hx_buckets(2); KN=2; run_modify<S3>(2,1); }
SX_ENTRY(mod4){ BN=1; run_modify<S4>(2,1); }
SX_ENTRY(mod5){ KN=2; run_modify<S5>(2,1); }
SX_ENTRY(mod6){ run_modify<S6>(2,1); }
SX_ENTRY(twof1){ run_modify<S1>(2,2); }
SX_ENTRY(twof2){ hx_buckets(2); KN=2; BN=1; run_modify<S2>(2,2); }
SX_ENTRY(twof3){ hx_buckets(2); KN=2; run_modify<S3>(1,2); }
SX_ENTRY(twof5){ run_modify<S5>(1,2); }
SX_ENTRY(mod3_3){ hx_buckets(2); run_modify<S3>(3,1); }
SX_ENTRY(twof4){ BN=1; run_modify<S4>(2,2); }
SX_ENTRY(any1){ run_anyback<S1>(3,1); }
SX_ENTRY(any2){ hx_buckets(2); KN=2; run_anyback<S2>(2,1); }
SX_ENTRY(any3){ hx_buckets(2); KN=2; run_anyback<S3>(2,1); }
SX_ENTRY(any4){ BN=1; run_anyback<S4>(2,1); }
SX_ENTRY(any5){ KN=2; run_anyback<S5>(2,1); }
SX_ENTRY(any6){ run_anyback<S6>(2,1); }
SX_ENTRY(group4){ GRP=true; hx_buckets(2); KN=2; run_modify<S3>(5,1); }
SX_ENTRY(group5){ GRP=true; hx_buckets(1); KN=2; BN=1; run_anyback<S3>(5,1); }
