SPECIFICATION GSpec
VIEW GView
CONSTANT Batches <- ModelBatches
CONSTRAINT Bounded
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
