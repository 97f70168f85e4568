SPECIFICATION Spec
CONSTANT CPats <- TPats
CONSTANT CMap <- TMap
CONSTANT CText <- TText
CONSTANT CTab <- TTab
CONSTANT CRules <- TRules
CONSTANT CFault <- TFault
INVARIANT Agree
CHECK_DEADLOCK FALSE
