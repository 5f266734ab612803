------------------------------- MODULE Bloom -------------------------------
(* The Bloom filter (src/bloom_filter.hpp): a set of bits, and a ghost set  *)
(* of the elements added since the last clear/set.                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Configs      \* set of [bits |-> n, h |-> sequence: element -> sequence of bit indexes]
VARIABLES cfg,        \* the instance: number of bits, hash functions
          bits,       \* indexes of the bits that are 1
          added       \* elements added since the filter was last cleared or replaced
bvars == <<cfg, bits, added>>

Range(s) == {s[i] : i \in 1..Len(s)}
H(e) == Range(cfg.h[e])                  \* bits of element e (hash functions of the user)
Elems == 1..Len(cfg.h)
Present(e) == H(e) \subseteq bits

Init == cfg \in Configs /\ bits = {} /\ added = {}
Add(e) == bits' = bits \cup H(e) /\ added' = added \cup {e} /\ UNCHANGED cfg
Lookup(e, r) == r = Present(e) /\ UNCHANGED bvars
Clear == bits' = {} /\ added' = {} /\ UNCHANGED cfg
SetBits(S) == bits' = S /\ added' = {} /\ UNCHANGED cfg

DoAdd == \E e \in Elems : Add(e)
DoLookup == \E e \in Elems, r \in BOOLEAN : Lookup(e, r)
DoSet == \E S \in SUBSET (0..cfg.bits-1) : SetBits(S)
Next == DoAdd \/ DoLookup \/ Clear \/ DoSet
Spec == Init /\ [][Next]_bvars

TypeOK == bits \subseteq 0..cfg.bits-1 /\ added \subseteq Elems
(* no false negative, and a positive answer is always explained by bits    *)
(* that were set                                                           *)
NoFalseNegative == \A e \in added : Present(e)
(* bits only disappear through Clear or SetBits                            *)
Monotone == [][bits \subseteq bits' \/ added' = {}]_bvars
=============================================================================
