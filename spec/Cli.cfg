SPECIFICATION Spec
INVARIANTS InputUntouched OnlyAsked FailingUntouched NothingBeforeOptions Complete ErrorKnown
CHECK_DEADLOCK FALSE
