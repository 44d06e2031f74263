----------------------------- MODULE WindowsMC -----------------------------
EXTENDS Windows
SomeKinds == <<"trajectory", "theta_sal", "curve">>
=============================================================================
