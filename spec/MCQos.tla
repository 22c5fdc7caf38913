------------------------------- MODULE MCQos -------------------------------
EXTENDS Qos
U == <<0, 0>>
B == <<9, 6>>
I == <<9, 7>>
=============================================================================
