// safe mode for programs that are correct throughout: any report is a violation
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#include "sx.h"
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(expr,ec) do { if (!(expr)) sx_fail("safe-mode-report-in-correct-program"); } while(0)
