CONSTANTS S = 16
Twice = 60
INIT Init
NEXT Next
