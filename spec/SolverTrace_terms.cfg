SPECIFICATION Spec
CONSTANT Aspects = {"terms"}
POSTCONDITION Accepted
