----------------------------- MODULE HbsModule -----------------------------
(***************************************************************************)
(* The life of one serialized program: a block of memory that is copied    *)
(* between slots, made position independent, relocated, sealed with a      *)
(* hash and verified.  A slot's block holds: addr (the address the block   *)
(* says it is at), base (the address its inner pointers are relative to),  *)
(* seal (what the content was when the hash was made; <<>> = never).       *)
(* Addresses: 0..N-1 slots, -1 null, 9 where the program was created.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, MaxOps
Null == -1
Orig == 9
Slots == 0..(N - 1)
VARIABLES blk, hist
vars == <<blk, hist>>
NoBlk == [addr |-> -5, base |-> -5, seal |-> <<>>]
Content(b) == <<b.addr, b.base>>
Here(i) == blk[i].addr = i /\ blk[i].base = i
Used(i) == blk[i] # NoBlk

Init == blk = [i \in Slots |-> IF i = 0 THEN [addr |-> Orig, base |-> Orig, seal |-> <<>>] ELSE NoBlk] /\ hist = <<>>
Log(op, r) == hist' = Append(hist, [op |-> op, r |-> r])
Copy(i, j) == i # j /\ Used(i) /\ blk' = [blk EXCEPT ![j] = blk[i]] /\ Log(<<"copy", i, j>>, <<>>)
(* only a block whose pointers are its own can be made relative to another address *)
Norm(i, a) == Used(i) /\ Here(i) /\ blk' = [blk EXCEPT ![i].addr = a, ![i].base = a] /\ Log(<<"norm", i, a>>, <<>>)
Patch(i) == Used(i) /\ blk' = [blk EXCEPT ![i].addr = i, ![i].base = i] /\ Log(<<"patch", i, 0>>, <<>>)
Hash(i) == Used(i) /\ blk' = [blk EXCEPT ![i].seal = Content(blk[i])] /\ Log(<<"hash", i, 0>>, <<>>)
Verify(i) == Used(i) /\ UNCHANGED blk /\ Log(<<"verify", i, 0>>, <<blk[i].seal = Content(blk[i])>>)
Where(i) == Used(i) /\ UNCHANGED blk /\ Log(<<"where", i, 0>>, <<blk[i].addr, blk[i].base, blk[i].base>>)
Run(i) == Used(i) /\ Here(i) /\ UNCHANGED blk /\ Log(<<"run", i, 0>>, <<"run">>)
Dump(i) == Used(i) /\ Here(i) /\ UNCHANGED blk /\ Log(<<"dump", i, 0>>, <<"dump">>)
Corrupt(i) == Used(i) /\ blk[i].seal = Content(blk[i]) /\ UNCHANGED blk /\ Log(<<"corrupt", i, 0>>, <<1, 0>>)
(* the block relative to null is the same whatever memory it was made in *)
Same(i) == Used(i) /\ blk[i].base = Null /\ UNCHANGED blk /\ Log(<<"same", i, 0>>, <<-1>>)

Changes == \E i \in Slots : Patch(i) \/ Hash(i) \/ (\E j \in Slots : Copy(i, j)) \/ (\E a \in Slots \cup {Null} : Norm(i, a))
Looks == \E i \in Slots : Verify(i) \/ Where(i) \/ Run(i) \/ Dump(i) \/ Corrupt(i) \/ Same(i)
(* a look changes nothing, so two in a row are not worth a history *)
LastLook == hist # <<>> /\ hist[Len(hist)].op[1] \in {"verify", "where", "run", "dump", "corrupt", "same"}
Next == Len(hist) < MaxOps /\ (Changes \/ (~LastLook /\ Len(hist) = MaxOps - 1 /\ Looks))

(* addr says what the pointers are relative to, a relocated block runs where it is, and a seal survives every copy *)
Coherent == \A i \in Slots : blk[i].addr = blk[i].base
Relocatable == \A i \in Slots : Used(i) => (ENABLED Run(i) <=> blk[i].base = i)
SealKept == [][\A i, j \in Slots : (blk'[j] = blk[i] /\ blk[i].seal # <<>>) => blk'[j].seal = blk[i].seal]_vars
PrintHist == Len(hist) = MaxOps => PrintT("RES" \o ToJson([h |-> [k \in 1..Len(hist) |-> <<hist[k].op, hist[k].r>>]]))
=============================================================================
