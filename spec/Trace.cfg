SPECIFICATION Spec
INVARIANT CheckStep
CHECK_DEADLOCK FALSE
CONSTANTS
  Width = 256
  Prec = "1000000000000000000"
  MaxStakers = 50
  MaxFunders = 50
  TeamAllocation = "165000000000000000"
  TGE = 1675247655
  Cliff = 31536000
  Vesting = 94608000
  Unlock = 63072000
