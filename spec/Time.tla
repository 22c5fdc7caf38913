-------------------------------- MODULE Time --------------------------------
(* Clamping in limb arithmetic (the form traces are judged in), over pairs of   *)
(* durations around every boundary.                                             *)
EXTENDS TimeOps, TLC
One == [Zero EXCEPT ![Limbs] = 1]
G == <<0, 0, 0, 1, 0, 0, 0>>
Mid == <<0, 0, 0, 1, 73, 741, 823>>
MaxG == <<2, 147, 483, 647, 0, 0, 0>>         \* 2147483647 * 10^9
Huge == <<18, 446, 744, 73, 709, 551, 615>>   \* 2^64 - 1
Secs == {Zero, One, Mid, MaxSec, <<0, 0, 0, 2, 147, 483, 646>>, <<0, 0, 0, 2, 147, 483, 648>>, Huge}
Nsecs == {Zero, One, MaxNsec, G, Add(G, MaxNsec), MaxG, Add(MaxG, MaxNsec), Add(Add(MaxG, MaxNsec), One), Huge}
VARIABLES t, u
Init == t \in [sec : Secs, nsec : Nsecs] /\ u \in [sec : Secs, nsec : Nsecs]
Next == UNCHANGED <<t, u>>
Spec == Init /\ [][Next]_<<t, u>>
InRange == AtMost(Clamp(t).sec, MaxSec) /\ AtMost(Clamp(t).nsec, MaxNsec)
Idempotent == Clamp(Clamp(t)) = Clamp(t)
Monotonic == IF Earlier(Normal(t), Normal(u)) THEN ~Earlier(Clamp(u), Clamp(t)) ELSE ~Earlier(Clamp(t), Clamp(u))
Saturates == (Clamp(t) = Normal(t)) = ~Earlier(Largest, Normal(t))
=============================================================================
