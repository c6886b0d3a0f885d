CONSTANTS MaxCap = 6
 MaxAdds = 14
 Durs = {3}
 Lens = {1, 7}
SPECIFICATION Spec
INVARIANTS TypeOK Refines Promises Emit
PROPERTY RefinesSpec
