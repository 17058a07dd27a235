SPECIFICATION Spec
INVARIANT Calm
INVARIANT StepDone
INVARIANT RunDone
INVARIANT CastsDone
ALIAS Show
