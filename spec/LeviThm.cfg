SPECIFICATION Spec
CONSTANT Deep = 0
INVARIANTS Leibniz LeibnizM Transposes SkewFacts Quotients Chain Symmetric2 Rewrites Deps Follows Codes
