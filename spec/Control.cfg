SPECIFICATION Spec
INVARIANT Answered
INVARIANT FreeFaults
INVARIANT Inside
INVARIANT Blame
INVARIANT Verdict
INVARIANT Affine
ALIAS Show
