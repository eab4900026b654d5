// Tip states along a stroke: what is fixed stays, updates agree with starting over, particles keep their gaps.
#include "harness/tipwalk.h"

PBT(reference, 10, "at least three states were made") { WalkReference(c); }

PBT(increments, 14, "at least two updates fixed some states while others stayed volatile") { WalkIncrements(c); }
