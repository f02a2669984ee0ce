SPECIFICATION Spec
CONSTANTS
  Guards = {"emptypath","metaroot","metatype","nilvalue","branch","rootdelete","emptytree","nopath","displayroot"}
  Pres <- GPres
  Suffixes <- GSuffixes
  Kinds <- GKinds
  Stamps = {1, 2}
  MaxMsgs = 2
  Gen = TRUE
CHECK_DEADLOCK FALSE
VIEW View
