SPECIFICATION GSpec
VIEW GView
CONSTANT Batches <- ModelBatches
CONSTRAINT Bounded
INVARIANT ErrorOnlyAfterFinal
PROPERTIES Sticky Frozen FrozenInError Grows
CHECK_DEADLOCK FALSE
