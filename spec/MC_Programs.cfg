CONSTANTS MidStep = 20
TopStep = 6
