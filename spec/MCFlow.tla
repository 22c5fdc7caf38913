------------------------------ MODULE MCFlow --------------------------------
EXTENDS Flow
U == <<0, 0>>
BA == <<9, 6>>
Inf == <<9, 7>>
Max == <<5, 0>>
P(r, d, v, t, u) == [rel |-> r, dur |-> d, liv |-> v, dl |-> t, ll |-> u]

(* for a refuted variant: creators need not know their counterparts *)
Always(world, ctx, side, topic) == TRUE
(* left open; all that can be asked for; nothing asked for; durations DDS cannot hold *)
Prof(n) ==
  CASE n = "open" -> P("best_available", "best_available", "best_available", BA, BA)
    [] n = "strong" -> P("reliable", "transient_local", "manual_by_topic", <<1, 0>>, <<1, 0>>)
    [] n = "weak" -> P("best_effort", "volatile", "automatic", U, U)
    [] n = "long" -> P("reliable", "volatile", "automatic", Inf, <<6, 0>>)
    [] n = "half" -> P("best_available", "volatile", "best_available", BA, <<1, 0>>)
=============================================================================
