CONSTANTS Step = 1
