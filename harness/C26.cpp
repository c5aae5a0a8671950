// BOUND: two threads (three in one entry), each performing 1-2 operations out of 21 kinds of read-only use (lookup by key, iteration, bucket and rank queries, comparison, projection, copying) on one shared container of 1-4 indices of every kind with up to 3 elements of any key and bucket-collision pattern; or each building, changing and destroying its own container; every interleaving at mutex operations with at most 1 preemption (2 thorough), races decided by happens-before
// ASSUME: outside mutex operations only data races could make the interleaving matter, and those are reported
#include "C26.h"
SX_ENTRY(rd_1){ hx_buckets(2); readers<W1>(2,1); }
SX_ENTRY(rd_2){ hx_buckets(2); readers<W2>(2,1); }
SX_ENTRY(rd_3){ hx_buckets(2); readers<W3>(2,1); }
SX_ENTRY(rd_4){ readers<W4>(2,1); }
SX_ENTRY(rd_1e){ readers<W1>(0,1); }
SX_ENTRY(rd_3e){ readers<W3>(0,1); }
SX_ENTRY(own_1){ hx_buckets(2); owners<W1>(2); }
SX_ENTRY(own_2){ hx_buckets(2); owners<W2>(2); }
SX_ENTRY(own_3){ hx_buckets(2); owners<W3>(2); }
SX_ENTRY(own_4){ owners<W4>(2); }
SX_ENTRY(three){ readers3<W1>(1); }
SX_ENTRY_THOROUGH(rd_13){ hx_buckets(3); readers<W1>(3,1); }
SX_ENTRY_THOROUGH(rd_23){ hx_buckets(3); readers<W2>(3,1); }
SX_ENTRY_THOROUGH(rd_33){ hx_buckets(3); readers<W3>(3,1); }
SX_ENTRY_THOROUGH(rd_43){ readers<W4>(3,1); }
SX_ENTRY_THOROUGH(rd_12){ hx_buckets(2); readers<W1>(1,2); }
