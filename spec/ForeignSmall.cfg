SPECIFICATION Spec
CONSTANTS
  Atoms <- SmallAtoms
  Tiny <- SmallTiny
  SK <- SmallSK
  Goals = {0, 1, 2}
  Sizes = {0, 1, 2}
  Pads <- ZeroPad
  Emit <- NoPrint
CHECK_DEADLOCK FALSE
