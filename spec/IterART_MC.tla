----------------------------- MODULE IterART_MC -----------------------------
EXTENDS IterART
Short == << <<1>>, <<1,1>>, <<1,1,1>>, <<1,1,2>>, <<1,2>>, <<2>>, <<2,1>>, <<2,2>> >>
Long  == << <<1,1,1,1>>, <<1,1,1,2>>, <<1,1,2>>, <<1,2,1>>, <<1,2,2>>, <<2,1,1>>, <<2,1,2>> >>
Pairs == << <<1,1>>, <<1,2,1>>, <<1,2,2>>, <<1,3>>, <<2,1>>, <<2,2>>, <<3>> >>
MCUniverses == << Short, Long, Pairs >>
SmallUniverses == << SubSeq(Long, 1, 6) >>
=============================================================================
