------------------------------- MODULE ConcGen -------------------------------
(* Random programs for four threads over registers 0..3 of their own and     *)
(* 4..7 shared.                                                              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES prog, done
Depth == atoi(IOEnv.DEPTH)
Pick(S) == RandomElement(S)
Light == {"NOT_1", "NOT_2", "COPY_0", "EXTRACT_1", "EXTRACT_2", "INV_1", "XAI_1", "XAI1_2", "AUT_1", "PHASET_0", "PHASET_1", "PHASET_2", "BOOTSDEC", "ONE_1", "ZERO_0", "DECOMP_1", "DECOMP_2"}
Ring == {"EXT_1", "EXT_2", "CMUX_1", "CMUX_2", "POLY_1", "POLY_2", "RAMUX_1", "UROM_1", "LROM_1", "WRITE_1", "BFV_1", "EVAUTO_1", "EVAUTO_2", "ANNIH_1", "ANNIH_2", "PACK_1", "PACKC_1", "PHASE_1", "PHASE_2", "DECR_1", "DECI_1", "DECI_2", "HALF_1", "STEP_1", "STEP_2", "FD_1", "NTT_1", "POLYR_1", "PROD3_1", "RELIN_1"}
Switch == {"IKS_10", "IKS_1h", "IKS_20", "IKS_2h", "IKS_21", "IKSS_21", "IKSC_10", "RING_11", "PRIV_11", "SPRIV_21", "TMULT_11"}
Gate == {"NAND_10_01", "XOR_10_01", "ORYN_10_01", "AND_01_10", "XNOR_01_10", "MUX_lvl1", "MUX_lvl0", "MUXR_01", "GB_01_10", "GB_10_01", "GB_10_01_half", "LUT_01", "BR_01", "BRE_01", "MANY2_01", "NAND_1h_h1", "XOR_h1_1h", "LUT_h1", "EXSWMUX", "MUXS_01_10"}
Heavy == {"NAND_20_02", "XOR_02_20", "LUT_02", "BR4_02", "MUXR_02", "GBN_10_01", "LUTN_01", "LUTR_01", "CB_10_02_21", "CBI_10_02_21", "CBS_10_02_21", "DIGITS", "IKS_31", "EXTN_1", "EXTR_1", "BRN_01", "BRE_02", "CBP_10_02_21", "CBP_02_21", "CBSP_10_02_21", "CBI_02_21", "CBW_02_21", "CB_10_02_22"}
Kind(w) == IF w <= 3 THEN Light ELSE IF w <= 9 THEN Ring ELSE IF w <= 13 THEN Switch ELSE IF w <= 18 THEN Gate ELSE Heavy
Step(n) == \* the same operand several times over makes repetitions
  [th |-> Pick(0..(3 + (n - n))), op |-> Pick(Kind(Pick(1..20))), d |-> Pick(0..3), a |-> Pick(0..7), b |-> Pick(0..7), c |-> Pick(0..7)]
Init == prog = <<>> /\ done = FALSE
Next == \/ /\ Len(prog) < Depth /\ \E r \in {Step(Len(prog))} : prog' = Append(prog, r)
           /\ UNCHANGED done
        \/ /\ Len(prog) = Depth /\ ~done /\ PrintT("PROG " \o ToJson(prog)) /\ done' = TRUE
           /\ UNCHANGED prog
Spec == Init /\ [][Next]_<<prog, done>>
=============================================================================
