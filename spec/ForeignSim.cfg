SPECIFICATION Spec
CONSTANTS
  Atoms <- BigAtoms
  Tiny <- BigTiny
  SK <- BigSK
  Goals = {0, 1, 2, 3, 5, 8, 11, 14}
  Sizes = {0, 1, 2, 3, 4, 6, 8}
  Pads <- TwoPads
  Emit <- DoPrint
CHECK_DEADLOCK FALSE
