------------------------------ MODULE MCBloom ------------------------------
EXTENDS Bloom, TLC, Json
MCConfigs == {
  [bits |-> 1, h |-> << <<0>> >>],
  [bits |-> 3, h |-> << <<0, 1>>, <<1, 1>>, <<2, 0>>, <<1, 2>> >>],
  [bits |-> 4, h |-> << <<0, 1, 2>>, <<1, 3, 3>>, <<2, 2, 2>>, <<3, 0, 1>>, <<0, 0, 0>> >>]}
(* for the replay of every transition in the implementation *)
EdgeConfigs == {[bits |-> 4, h |-> << <<0, 1>>, <<1, 3>>, <<2, 2>>, <<3, 0>>, <<0, 0>> >>]}
EdgeNext == \/ \E e \in Elems : Add(e) /\ PrintT("EDGE" \o ToJson([from |-> <<bits, added>>, act |-> <<1, e>>, to |-> <<bits', added'>>]))
            \/ Clear /\ PrintT("EDGE" \o ToJson([from |-> <<bits, added>>, act |-> <<2>>, to |-> <<bits', added'>>]))
            \/ \E S \in SUBSET (0..cfg.bits-1) : SetBits(S) /\ PrintT("EDGE" \o ToJson([from |-> <<bits, added>>, act |-> <<3, S>>, to |-> <<bits', added'>>]))
EdgeSpec == Init /\ [][EdgeNext]_bvars
=============================================================================
