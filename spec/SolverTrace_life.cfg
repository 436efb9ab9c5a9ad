SPECIFICATION Spec
CONSTANT Aspects = {"life"}
POSTCONDITION Accepted
