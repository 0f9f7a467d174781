NOTE = 'Every obligation generated from the current source for the functions the property depends on is discharged by z3, for all inputs and iterations; assumptions and trusted base are listed in the evidence and in DESIGN.md.'
NOTES = {}
NA = {}
