CONSTANTS MaxCap = 4
 MaxAdds = 10
 Durs = {3}
 Lens = {1, 7}
SPECIFICATION Spec
INVARIANTS TypeOK Refines Promises Emit
PROPERTY RefinesSpec
