------------------------------ MODULE MCCuckoo ------------------------------
EXTENDS CuckooTable
\* fp 1 hashes to 1, fp 2 hashes to 3, fp 3 hashes to 0 (both buckets equal)
MCEl == << <<1, 0, 1>>, <<1, 2, 3>>, <<2, 0, 3>>, <<2, 1, 2>>, <<3, 2, 2>>, <<1, 1, 0>> >>
=============================================================================
