INIT Init
NEXT Next
INVARIANT JudgeShipped
CONSTANTS
  Say <- PackSay
  NoArg <- PackNoArg
  TextArg <- PackTextArg
  Count <- PackCount
  Whole <- PackWhole
  Printed <- PackPrinted
  PrintedFixed <- PackPrintedFixed
  OwnFormats <- PackFormats
  Month3Capital <- PackMonth3Capital
CHECK_DEADLOCK FALSE
