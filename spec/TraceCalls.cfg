SPECIFICATION Spec
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
