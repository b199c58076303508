//! The shipped instances.

#[macro_export]
macro_rules! each_p2 {
    ($m:ident) => {
        $m!("BN256_3", FpBN256, poseidon2_instance_bn256, POSEIDON2_BN256_PARAMS, MAT_DIAG3_M_1, MAT_INTERNAL3, RC3, 3, 5, 8, 56);
        $m!("BLS_2", FpBLS12, poseidon2_instance_bls12, POSEIDON2_BLS_2_PARAMS, MAT_DIAG2_M_1, MAT_INTERNAL2, RC2, 2, 5, 8, 56);
        $m!("BLS_3", FpBLS12, poseidon2_instance_bls12, POSEIDON2_BLS_3_PARAMS, MAT_DIAG3_M_1, MAT_INTERNAL3, RC3, 3, 5, 8, 56);
        $m!("BLS_4", FpBLS12, poseidon2_instance_bls12, POSEIDON2_BLS_4_PARAMS, MAT_DIAG4_M_1, MAT_INTERNAL4, RC4, 4, 5, 8, 56);
        $m!("BLS_8", FpBLS12, poseidon2_instance_bls12, POSEIDON2_BLS_8_PARAMS, MAT_DIAG8_M_1, MAT_INTERNAL8, RC8, 8, 5, 8, 57);
        $m!("PALLAS_3", FpPallas, poseidon2_instance_pallas, POSEIDON2_PALLAS_3_PARAMS, MAT_DIAG3_M_1, MAT_INTERNAL3, RC3, 3, 5, 8, 56);
        $m!("PALLAS_4", FpPallas, poseidon2_instance_pallas, POSEIDON2_PALLAS_4_PARAMS, MAT_DIAG4_M_1, MAT_INTERNAL4, RC4, 4, 5, 8, 56);
        $m!("PALLAS_8", FpPallas, poseidon2_instance_pallas, POSEIDON2_PALLAS_8_PARAMS, MAT_DIAG8_M_1, MAT_INTERNAL8, RC8, 8, 5, 8, 57);
        $m!("VESTA_3", FpVesta, poseidon2_instance_vesta, POSEIDON2_VESTA_PARAMS, MAT_DIAG3_M_1, MAT_INTERNAL3, RC3, 3, 5, 8, 56);
        $m!("GOLDILOCKS_8", FpGoldiLocks, poseidon2_instance_goldilocks, POSEIDON2_GOLDILOCKS_8_PARAMS, MAT_DIAG8_M_1, MAT_INTERNAL8, RC8, 8, 7, 8, 22);
        $m!("GOLDILOCKS_12", FpGoldiLocks, poseidon2_instance_goldilocks, POSEIDON2_GOLDILOCKS_12_PARAMS, MAT_DIAG12_M_1, MAT_INTERNAL12, RC12, 12, 7, 8, 22);
        $m!("GOLDILOCKS_16", FpGoldiLocks, poseidon2_instance_goldilocks, POSEIDON2_GOLDILOCKS_16_PARAMS, MAT_DIAG16_M_1, MAT_INTERNAL16, RC16, 16, 7, 8, 22);
        $m!("GOLDILOCKS_20", FpGoldiLocks, poseidon2_instance_goldilocks, POSEIDON2_GOLDILOCKS_20_PARAMS, MAT_DIAG20_M_1, MAT_INTERNAL20, RC20, 20, 7, 8, 22);
        $m!("BABYBEAR_16", FpBabyBear, poseidon2_instance_babybear, POSEIDON2_BABYBEAR_16_PARAMS, MAT_DIAG16_M_1, MAT_INTERNAL16, RC16, 16, 7, 8, 13);
        $m!("BABYBEAR_24", FpBabyBear, poseidon2_instance_babybear, POSEIDON2_BABYBEAR_24_PARAMS, MAT_DIAG24_M_1, MAT_INTERNAL24, RC24, 24, 7, 8, 21);
    };
}

#[macro_export]
macro_rules! each_pos {
    ($m:ident) => {
        $m!("BN256_3", FpBN256, poseidon_instance_bn256, POSEIDON_BN_PARAMS, MDS3, RC3, 3, 5, 8, 56);
        $m!("BLS_2", FpBLS12, poseidon_instance_bls12, POSEIDON_BLS_2_PARAMS, MDS2, RC2, 2, 5, 8, 56);
        $m!("BLS_3", FpBLS12, poseidon_instance_bls12, POSEIDON_BLS_3_PARAMS, MDS3, RC3, 3, 5, 8, 56);
        $m!("BLS_4", FpBLS12, poseidon_instance_bls12, POSEIDON_BLS_4_PARAMS, MDS4, RC4, 4, 5, 8, 56);
        $m!("BLS_8", FpBLS12, poseidon_instance_bls12, POSEIDON_BLS_8_PARAMS, MDS8, RC8, 8, 5, 8, 57);
        $m!("PALLAS_3", FpPallas, poseidon_instance_pallas, POSEIDON_PALLAS_3_PARAMS, MDS3, RC3, 3, 5, 8, 56);
        $m!("PALLAS_4", FpPallas, poseidon_instance_pallas, POSEIDON_PALLAS_4_PARAMS, MDS4, RC4, 4, 5, 8, 56);
        $m!("PALLAS_8", FpPallas, poseidon_instance_pallas, POSEIDON_PALLAS_8_PARAMS, MDS8, RC8, 8, 5, 8, 57);
        $m!("VESTA_3", FpVesta, poseidon_instance_vesta, POSEIDON_VESTA_PARAMS, MDS3, RC3, 3, 5, 8, 56);
        $m!("GOLDILOCKS_8", FpGoldiLocks, poseidon_instance_goldilocks, POSEIDON_GOLDILOCKS_8_PARAMS, MDS8, RC8, 8, 7, 8, 22);
        $m!("GOLDILOCKS_12", FpGoldiLocks, poseidon_instance_goldilocks, POSEIDON_GOLDILOCKS_12_PARAMS, MDS12, RC12, 12, 7, 8, 22);
        $m!("GOLDILOCKS_16", FpGoldiLocks, poseidon_instance_goldilocks, POSEIDON_GOLDILOCKS_16_PARAMS, MDS16, RC16, 16, 7, 8, 22);
        $m!("GOLDILOCKS_20", FpGoldiLocks, poseidon_instance_goldilocks, POSEIDON_GOLDILOCKS_20_PARAMS, MDS20, RC20, 20, 7, 8, 22);
        $m!("BABYBEAR_16", FpBabyBear, poseidon_instance_babybear, POSEIDON_BABYBEAR_16_PARAMS, MDS16, RC16, 16, 7, 8, 13);
        $m!("BABYBEAR_24", FpBabyBear, poseidon_instance_babybear, POSEIDON_BABYBEAR_24_PARAMS, MDS24, RC24, 24, 7, 8, 21);
    };
}

#[macro_export]
macro_rules! each_gm {
    ($m:ident) => {
        $m!("BLS_2", FpBLS12, gmimc_instance_bls12, GMIMC_BLS_2_PARAMS, 2, 5);
        $m!("BLS_3", FpBLS12, gmimc_instance_bls12, GMIMC_BLS_3_PARAMS, 3, 5);
        $m!("BLS_4", FpBLS12, gmimc_instance_bls12, GMIMC_BLS_4_PARAMS, 4, 5);
        $m!("BLS_5", FpBLS12, gmimc_instance_bls12, GMIMC_BLS_5_PARAMS, 5, 5);
        $m!("BLS_8", FpBLS12, gmimc_instance_bls12, GMIMC_BLS_8_PARAMS, 8, 5);
        $m!("BLS_9", FpBLS12, gmimc_instance_bls12, GMIMC_BLS_9_PARAMS, 9, 5);
        $m!("BLS_12", FpBLS12, gmimc_instance_bls12, GMIMC_BLS_12_PARAMS, 12, 5);
        $m!("BLS_16", FpBLS12, gmimc_instance_bls12, GMIMC_BLS_16_PARAMS, 16, 5);
        $m!("BLS_20", FpBLS12, gmimc_instance_bls12, GMIMC_BLS_20_PARAMS, 20, 5);
        $m!("BLS_24", FpBLS12, gmimc_instance_bls12, GMIMC_BLS_24_PARAMS, 24, 5);
        $m!("BN_3", FpBN256, gmimc_instance_bn256, GMIMC_BN_3_PARAMS, 3, 5);
        $m!("BN_4", FpBN256, gmimc_instance_bn256, GMIMC_BN_4_PARAMS, 4, 5);
        $m!("BN_5", FpBN256, gmimc_instance_bn256, GMIMC_BN_5_PARAMS, 5, 5);
        $m!("BN_8", FpBN256, gmimc_instance_bn256, GMIMC_BN_8_PARAMS, 8, 5);
        $m!("BN_9", FpBN256, gmimc_instance_bn256, GMIMC_BN_9_PARAMS, 9, 5);
        $m!("BN_12", FpBN256, gmimc_instance_bn256, GMIMC_BN_12_PARAMS, 12, 5);
        $m!("BN_16", FpBN256, gmimc_instance_bn256, GMIMC_BN_16_PARAMS, 16, 5);
        $m!("BN_20", FpBN256, gmimc_instance_bn256, GMIMC_BN_20_PARAMS, 20, 5);
        $m!("BN_24", FpBN256, gmimc_instance_bn256, GMIMC_BN_24_PARAMS, 24, 5);
        $m!("PALLAS_3", FpPallas, gmimc_instance_pallas, GMIMC_PALLAS_3_PARAMS, 3, 5);
        $m!("PALLAS_4", FpPallas, gmimc_instance_pallas, GMIMC_PALLAS_4_PARAMS, 4, 5);
        $m!("PALLAS_5", FpPallas, gmimc_instance_pallas, GMIMC_PALLAS_5_PARAMS, 5, 5);
        $m!("PALLAS_8", FpPallas, gmimc_instance_pallas, GMIMC_PALLAS_8_PARAMS, 8, 5);
        $m!("PALLAS_9", FpPallas, gmimc_instance_pallas, GMIMC_PALLAS_9_PARAMS, 9, 5);
        $m!("PALLAS_12", FpPallas, gmimc_instance_pallas, GMIMC_PALLAS_12_PARAMS, 12, 5);
        $m!("PALLAS_16", FpPallas, gmimc_instance_pallas, GMIMC_PALLAS_16_PARAMS, 16, 5);
        $m!("PALLAS_20", FpPallas, gmimc_instance_pallas, GMIMC_PALLAS_20_PARAMS, 20, 5);
        $m!("PALLAS_24", FpPallas, gmimc_instance_pallas, GMIMC_PALLAS_24_PARAMS, 24, 5);
        $m!("VESTA_3", FpVesta, gmimc_instance_vesta, GMIMC_VESTA_3_PARAMS, 3, 5);
        $m!("VESTA_4", FpVesta, gmimc_instance_vesta, GMIMC_VESTA_4_PARAMS, 4, 5);
        $m!("VESTA_5", FpVesta, gmimc_instance_vesta, GMIMC_VESTA_5_PARAMS, 5, 5);
        $m!("VESTA_8", FpVesta, gmimc_instance_vesta, GMIMC_VESTA_8_PARAMS, 8, 5);
        $m!("VESTA_9", FpVesta, gmimc_instance_vesta, GMIMC_VESTA_9_PARAMS, 9, 5);
        $m!("VESTA_12", FpVesta, gmimc_instance_vesta, GMIMC_VESTA_12_PARAMS, 12, 5);
        $m!("VESTA_16", FpVesta, gmimc_instance_vesta, GMIMC_VESTA_16_PARAMS, 16, 5);
        $m!("VESTA_20", FpVesta, gmimc_instance_vesta, GMIMC_VESTA_20_PARAMS, 20, 5);
        $m!("VESTA_24", FpVesta, gmimc_instance_vesta, GMIMC_VESTA_24_PARAMS, 24, 5);
        $m!("GOLDILOCKS_8", FpGoldiLocks, gmimc_instance_goldilocks, GMIMC_GOLDILOCKS_8_PARAMS, 8, 7);
        $m!("GOLDILOCKS_12", FpGoldiLocks, gmimc_instance_goldilocks, GMIMC_GOLDILOCKS_12_PARAMS, 12, 7);
        $m!("GOLDILOCKS_16", FpGoldiLocks, gmimc_instance_goldilocks, GMIMC_GOLDILOCKS_16_PARAMS, 16, 7);
        $m!("GOLDILOCKS_20", FpGoldiLocks, gmimc_instance_goldilocks, GMIMC_GOLDILOCKS_20_PARAMS, 20, 7);
        $m!("BABYBEAR_16", FpBabyBear, gmimc_instance_babybear, GMIMC_BABYBEAR_16_PARAMS, 16, 7);
        $m!("BABYBEAR_24", FpBabyBear, gmimc_instance_babybear, GMIMC_BABYBEAR_24_PARAMS, 24, 7);
    };
}

#[macro_export]
macro_rules! each_nep {
    ($m:ident) => {
        $m!("BN_4", FpBN256, NEPTUNE_BN_PARAMS, 4, 5);
        $m!("BLS_4", FpBLS12, NEPTUNE_BLS_4_PARAMS, 4, 5);
        $m!("BLS_8", FpBLS12, NEPTUNE_BLS_8_PARAMS, 8, 5);
        $m!("GOLDILOCKS_8", FpGoldiLocks, NEPTUNE_GOLDILOCKS_8_PARAMS, 8, 7);
        $m!("GOLDILOCKS_12", FpGoldiLocks, NEPTUNE_GOLDILOCKS_12_PARAMS, 12, 7);
        $m!("GOLDILOCKS_16", FpGoldiLocks, NEPTUNE_GOLDILOCKS_16_PARAMS, 16, 7);
        $m!("GOLDILOCKS_20", FpGoldiLocks, NEPTUNE_GOLDILOCKS_20_PARAMS, 20, 7);
        $m!("BABYBEAR_16", FpBabyBear, NEPTUNE_BABYBEAR_16_PARAMS, 16, 7);
        $m!("BABYBEAR_24", FpBabyBear, NEPTUNE_BABYBEAR_24_PARAMS, 24, 7);
        $m!("PALLAS_4", FpPallas, NEPTUNE_PALLAS_4_PARAMS, 4, 5);
        $m!("PALLAS_8", FpPallas, NEPTUNE_PALLAS_8_PARAMS, 8, 5);
        $m!("VESTA_4", FpVesta, NEPTUNE_VESTA_PARAMS, 4, 5);
    };
}
