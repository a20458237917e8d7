SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2}
  Texts = {"a", "b"}
  Limits <- LimitsQ
  MaxAdds = 3
  MaxOps = 7
  Cfgs <- CfgsQ
INVARIANTS NoLoss SeesOwn SeesShared RemovedStaysRemoved StampsRight
CHECK_DEADLOCK FALSE
