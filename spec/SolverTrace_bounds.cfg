SPECIFICATION Spec
CONSTANT Aspects = {"bounds"}
POSTCONDITION Accepted
