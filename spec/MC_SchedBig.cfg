CONSTANTS N = 2
K = 60
Draws = 12000
INIT Init
NEXT Next
