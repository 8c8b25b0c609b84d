CONSTANTS S = 16
Twice = 1500
INIT Init
NEXT Next
