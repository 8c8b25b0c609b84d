CONSTANTS Step = 3
