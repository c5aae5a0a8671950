// invariant-checking mode for programs that are correct throughout: the library asserts its own
// internal invariants (tree order and balance, subtree sizes, list and array links, bucket and
// group structure, agreement of the counts of all indices) after every operation
#define BOOST_MULTI_INDEX_ENABLE_INVARIANT_CHECKING
#include "sx.h"
#define BOOST_MULTI_INDEX_INVARIANT_ASSERT(expr) do { if (!(expr)) sx_fail("invariant-broken-in-correct-program"); } while(0)
