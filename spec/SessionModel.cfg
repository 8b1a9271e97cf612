SPECIFICATION Spec
CONSTANTS
 Objs = {1}
 Menu <- MMenu
INVARIANTS AnswerOfSettings
CHECK_DEADLOCK FALSE
