SPECIFICATION Spec
CONSTANTS
  H <- Table
