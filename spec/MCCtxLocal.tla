----------------------------- MODULE MCCtxLocal -----------------------------
EXTENDS CtxLocal
PairsSame == {<<g, g>> : g \in Gids}
PairsAll == Gids \X Gids
=============================================================================
