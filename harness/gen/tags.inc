T_AFF,
T_AFFM,
T_ANG,
T_ANGV,
T_ASPECT,
T_AXIS,
T_AXS,
T_BOTTOM,
T_BOX,
T_BOXI,
T_CNT,
T_CORN,
T_DFAR,
T_ETA,
T_FAR,
T_FOVY,
T_I,
T_IDX2,
T_IDX3,
T_IDX4,
T_INV2,
T_INV3,
T_INV4,
T_INZ,
T_IV,
T_IVNZ,
T_LEFT,
T_MASK2,
T_MASK3,
T_MASK4,
T_MVP,
T_MVPI,
T_NEAR,
T_NOISE,
T_ORD,
T_PAD,
T_PLANES,
T_POS,
T_PROJ,
T_Q,
T_RIGHT,
T_RIGID,
T_ROTE,
T_ROTM,
T_ROTQ3,
T_ROTQ4,
T_S,
T_SEQ,
T_SIZE2,
T_SPH,
T_SPHR,
T_T,
T_T01,
T_TOP,
T_TRS,
T_TRS3,
T_UNIT,
T_UNITM,
T_UNITM2,
T_UQ,
T_V,
T_VIEW,
T_VL,
T_VP,
T_VZ,
T_WIN,
