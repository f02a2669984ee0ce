SPECIFICATION Spec
CONSTANTS
  Guards = {"emptypath","metatype","nilvalue","branch","rootdelete","emptytree","nopath","displayroot"}
  Pres <- MCPres
  Suffixes <- MCSuffixes
  Kinds <- MCKinds
  Stamps = {1, 2}
  MaxMsgs = 3
  Gen = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS NoCrash Intact Framed PrefixFree ViewPrefixFree MetaTyped
