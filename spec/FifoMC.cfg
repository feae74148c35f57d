CONSTANTS Cap = 3
 MaxX = 7
 MaxLen = 6
SPECIFICATION Spec
INVARIANTS Refines Indexing PopOldest Bounded
