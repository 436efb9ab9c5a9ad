SPECIFICATION Spec
CONSTANTS Labels = {"a", "b", "c", "d", "LeftForcePoint0", "LeftForcePoint1", "", "Left"}
          MaxSize = 5
POSTCONDITION Accepted
