-------------------------------- MODULE Seqs --------------------------------
(* What is used of the community modules, whose names otherwise clash.        *)
LOCAL INSTANCE SequencesExt
Listed(set) == SetToSeq(set)
=============================================================================
