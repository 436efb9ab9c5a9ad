------------------------------- MODULE PureCacheMC -------------------------------
EXTENDS PureCache
MUses == [val |-> {"x", "u", "slot"}, jac |-> {"x", "slot"}, hes |-> {"x", "u", "slot"}]
MCopies == [val |-> {"x", "u"}, jac |-> {"x", "u"}, hes |-> {"x", "u"}]
\* Leaving out a step for something that is used violates Right; selecting the robot object anew does not matter to the
\* answers as long as the state is handed over
LazyCopies == [val |-> {"x", "u"}, jac |-> {"x"}, hes |-> {"x"}]
AllM == {"val", "jac", "hes"}
LessHands == {"val", "hes"}
LessSelects == {"val", "jac"}
NoneM == {}
=============================================================================
