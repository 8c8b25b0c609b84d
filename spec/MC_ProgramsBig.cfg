CONSTANTS MidStep = 5
TopStep = 2
