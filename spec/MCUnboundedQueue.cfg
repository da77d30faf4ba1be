SPECIFICATION Spec
CONSTANTS
  Producers = {1, 2}
  Consumers = {3, 4}
  PerProducer = 2
  ProducersExclude = TRUE
  ConsumersExclude = TRUE
INVARIANTS Safe Once InOrder NoneLost
CHECK_DEADLOCK FALSE
