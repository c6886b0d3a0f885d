SPECIFICATION TSpec
CONSTANTS
  H <- Table
