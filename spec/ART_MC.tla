------------------------------- MODULE ART_MC -------------------------------
(* Universes for ART: short keys, long shared prefixes, large nodes at the   *)
(* root, below a prefix, and within each other.                              *)
EXTENDS ART

Short == << <<1>>, <<1,1>>, <<1,1,1>>, <<1,1,2>>, <<1,2>>, <<2>>, <<2,1>>, <<2,2>>, <<2,2,1>>, <<3>> >>
Long  == << <<1,1,1,1>>, <<1,1,1,2>>, <<1,1,2,1>>, <<1,1,2,2>>, <<1,2,1,1>>, <<1,2,2>>, <<2,1,1,1>>, <<2,1,1,2>> >>
Root  == << <<1>>, <<2>>, <<3>>, <<3,1>>, <<3,2>>, <<4>>, <<5>>, <<62006>>, <<62007>> >>
Below == << <<1>>, <<2,1>>, <<2,2,1>>, <<2,2,2>>, <<2,2,3,1>>, <<2,2,3,2>>, <<2,2,62004>>, <<2,2,63005>>, <<2,3>> >>
Twice == << <<1>>, <<2,1>>, <<2,2,1>>, <<2,2,2>>, <<2,2,126003>>, <<2,3>>, <<126003>> >>

MCUniverses == << Short, Long, Root, Below, Twice >>
SmallUniverses == << SubSeq(Short, 1, 7), SubSeq(Long, 1, 6), <<Root[1], Root[4], Root[5], Root[6], Root[8], Root[9]>> >>
LargeUniverses == << <<Below[1], Below[3], Below[4], Below[5], Below[7], Below[8]>> >>
=============================================================================
