SPECIFICATION Spec
INVARIANTS InRange JumpLaw Compose
CONSTANTS
 Depth = 12
 Stride = 4
 Names = {"s_lcg_3_0_7", "s_lcg_5_2_7", "s_lcg_1_3_7", "s_lcg_1_5_13", "s_lcg_2_0_11", "s_lcg_1_0_5", "s_lcg_6_5_13", "s_lcg_3_1_8", "s_lcg_5_3_16", "s_lcg_16_16_17", "s_lcg_30_7_31", "s_lcg_4_9_27", "s_lcg8_0", "s_lcg8_251", "s_mt_w3_n2_m1_r1", "s_mt_w4_n2_m1_r1", "s_mt_w4_n3_m1_r1", "s_mt_w4_n3_m2_r2", "s_mt_w5_n3_m1_r3", "s_mt_w3_n4_m1_r0", "s_mt_w8_n3_m2_r5", "s_mt_w6_n4_m3_r2", "s_mt_w16_n2_m1_r14", "s_mt_w5_n5_m4_r4", "s_swc_2_1_3", "s_swc_2_2_3", "s_swc_1_1_4", "s_swc_3_1_2", "s_swc_1_3_7", "s_swc_1_2_5", "s_lf_2_3_1", "s_lf_2_3_2", "s_lf_1_7_3", "s_lf_3_2_1", "s_lf_1_5_2", "s_lfsr_8_7_3_4", "s_lfsr_8_5_2_2", "s_lfsr_6_5_2_3", "s_inv_3_0_7", "s_inv_2_3_7", "s_inv_5_1_31", "s_inv_1_1_3", "s_disc_5_2_s_lcg_5_2_7", "s_disc_4_4_s_lcg_5_3_16", "s_disc_3_1_s_swc_2_1_3", "s_disc_7_3_s_lf_1_7_3", "s_shuf_1_s_lcg_5_2_7", "s_shuf_2_s_lcg_3_0_7", "s_shuf_3_s_lcg_6_5_13", "s_shuf_4_s_lcg_5_3_16", "s_shuf_5_s_lcg8_0", "s_ind_3_s_lcg_3_1_8", "s_ind_5_s_lcg_3_1_8", "s_ind_4_s_lcg_5_2_7", "s_ind_2_s_lcg_3_0_7", "s_ind_7_s_lcg_1_5_13", "s_ind_1_s_lcg_5_3_16", "s_ind_9_s_lcg_30_7_31", "s_ind_16_s_lcg_16_16_17", "s_lcg_2_0_5", "s_addc_s_lcg_3_0_7_s_lcg_2_0_5", "s_addc_s_lcg_2_0_11_s_lcg_3_0_7", "s_xorc_s_lfsr_8_7_3_4_0_s_lfsr_6_5_2_3_0"}
CHECK_DEADLOCK FALSE
