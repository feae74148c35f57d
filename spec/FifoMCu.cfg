CONSTANTS Cap <- Unbounded
 MaxX = 6
 MaxLen = 5
SPECIFICATION Spec
INVARIANTS Refines Indexing PopOldest Bounded
