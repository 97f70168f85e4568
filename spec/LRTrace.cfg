SPECIFICATION TSpec
CONSTANT Cases <- TCases
CONSTANT Tab <- TTab
CONSTANT Rules <- TRules
CONSTANT Src <- TSrc
CONSTANT Fault <- TFault
