CONSTANTS N = 2
K = 30
Draws = 1500
INIT Init
NEXT Next
