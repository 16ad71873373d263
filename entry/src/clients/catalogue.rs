//! The independent catalogue: type, identification code (0 for none), channels, category.
#[macro_export]
macro_rules! catalogue {
    ($m:ident) => {
        $m! {
            UR20_4DI_P, 0x0009_1F84, "UR20_4DI_P", 4, DI;
            UR20_4DI_P_3W, 0x001B_1F84, "UR20_4DI_P_3W", 4, DI;
            UR20_8DI_P_2W, 0x0013_1FC1, "UR20_8DI_P_2W", 8, DI;
            UR20_8DI_P_3W, 0x000A_1FC1, "UR20_8DI_P_3W", 8, DI;
            UR20_8DI_P_3W_HD, 0x0003_1FC1, "UR20_8DI_P_3W_HD", 8, DI;
            UR20_16DI_P, 0x0004_9FC2, "UR20_16DI_P", 16, DI;
            UR20_16DI_P_PLC_INT, 0x0005_9FC2, "UR20_16DI_P_PLC_INT", 16, DI;
            UR20_2DI_P_TS, 0x0F01_4700, "UR20_2DI_P_TS", 2, DI;
            UR20_4DI_P_TS, 0x0F02_4700, "UR20_4DI_P_TS", 4, DI;
            UR20_4DI_N, 0x0001_1F84, "UR20_4DI_N", 4, DI;
            UR20_8DI_N_3W, 0x0002_1FC1, "UR20_8DI_N_3W", 8, DI;
            UR20_16DI_N, 0x000C_9FC2, "UR20_16DI_N", 16, DI;
            UR20_16DI_N_PLC_INT, 0x000D_9FC2, "UR20_16DI_N_PLC_INT", 16, DI;
            UR20_4DI_2W_230V_AC, 0x0016_9F84, "UR20_4DI_2W_230V_AC", 4, DI;
            UR20_4DO_P, 0x0101_2FA0, "UR20_4DO_P", 4, DO;
            UR20_4DO_P_2A, 0x0105_2FA0, "UR20_4DO_P_2A", 4, DO;
            UR20_4DO_PN_2A, 0x0115_2FC8, "UR20_4DO_PN_2A", 4, DO;
            UR20_8DO_P, 0x0102_2FC8, "UR20_8DO_P", 8, DO;
            UR20_8DO_P_2W_HD, 0x0119_2FC8, "UR20_8DO_P_2W_HD", 8, DO;
            UR20_16DO_P, 0x0103_AFD0, "UR20_16DO_P", 16, DO;
            UR20_16DO_P_PLC_INT, 0x0104_AFD0, "UR20_16DO_P_PLC_INT", 16, DO;
            UR20_4DO_N, 0x010A_2FA0, "UR20_4DO_N", 4, DO;
            UR20_4DO_N_2A, 0x010B_2FA0, "UR20_4DO_N_2A", 4, DO;
            UR20_8DO_N, 0x010C_2FC8, "UR20_8DO_N", 8, DO;
            UR20_16DO_N, 0x010D_AFD0, "UR20_16DO_N", 16, DO;
            UR20_16DO_N_PLC_INT, 0x010E_AFD0, "UR20_16DO_N_PLC_INT", 16, DO;
            UR20_4RO_SSR_255, 0x0107_2FA0, "UR20_4RO_SSR_255", 4, DO;
            UR20_4RO_CO_255, 0x0106_2FA0, "UR20_4RO_CO_255", 4, DO;
            UR20_2PWM_PN_0_5A, 0x0908_4880, "UR20_2PWM_PN_0_5A", 2, PWM;
            UR20_2PWM_PN_2A, 0x0909_4880, "UR20_2PWM_PN_2A", 2, PWM;
            UR20_4AI_UI_16, 0x0401_15C4, "UR20_4AI_UI_16", 4, AI;
            UR20_4AI_UI_16_DIAG, 0x0402_1544, "UR20_4AI_UI_16_DIAG", 4, AI;
            UR20_4AI_UI_DIF_16_DIAG, 0x041E_1544, "UR20_4AI_UI_DIF_16_DIAG", 4, AI;
            UR20_4AI_UI_16_HD, 0x0413_15C4, "UR20_4AI_UI_16_HD", 4, AI;
            UR20_4AI_UI_16_DIAG_HD, 0x0414_1544, "UR20_4AI_UI_16_DIAG_HD", 4, AI;
            UR20_4AI_UI_12, 0x0411_15C4, "UR20_4AI_UI_12", 4, AI;
            UR20_8AI_I_16_HD, 0x0404_15C5, "UR20_8AI_I_16_HD", 8, AI;
            UR20_8AI_I_16_DIAG_HD, 0x0405_1545, "UR20_8AI_I_16_DIAG_HD", 8, AI;
            UR20_8AI_I_PLC_INT, 0x0409_15C5, "UR20_8AI_I_PLC_INT", 8, AI;
            UR20_4AI_R_HS_16_DIAG, 0x041C_1544, "UR20_4AI_R_HS_16_DIAG", 4, AI;
            UR20_2AI_SG_24_DIAG, 0x041B_356D, "UR20_2AI_SG_24_DIAG", 2, AI;
            UR20_3EM_230V_AC, 0x0418_356D, "UR20_3EM_230V_AC", 8, AI;
            UR20_4AO_UI_16, 0x0502_25E0, "UR20_4AO_UI_16", 4, AO;
            UR20_4AO_UI_16_M, 0x0506_25E0, "UR20_4AO_UI_16_M", 4, AO;
            UR20_4AO_UI_16_DIAG, 0x0501_2560, "UR20_4AO_UI_16_DIAG", 4, AO;
            UR20_4AO_UI_16_M_DIAG, 0x0505_2560, "UR20_4AO_UI_16_M_DIAG", 4, AO;
            UR20_4AO_UI_16_HD, 0x0504_25E0, "UR20_4AO_UI_16_HD", 4, AO;
            UR20_4AO_UI_16_DIAG_HD, 0x0503_2560, "UR20_4AO_UI_16_DIAG_HD", 4, AO;
            UR20_1CNT_100_1DO, 0x08C1_3800, "UR20_1CNT_100_1DO", 1, CNT;
            UR20_2CNT_100, 0x08C3_3800, "UR20_2CNT_100", 2, CNT;
            UR20_1CNT_500, 0x08C4_3801, "UR20_1CNT_500", 1, CNT;
            UR20_2FCNT_100, 0x0881_28EE, "UR20_2FCNT_100", 2, CNT;
            UR20_1SSI, 0x09C1_7880, "UR20_1SSI", 1, COM;
            UR20_1COM_232_485_422, 0x0E41_3FED, "UR20_1COM_232_485_422", 1, COM;
            UR20_1COM_SAI_PRO, 0x0BC1_E800, "UR20_1COM_SAI_PRO", 1, COM;
            UR20_4COM_IO_LINK, 0x0E81_276D, "UR20_4COM_IO_LINK", 4, COM;
            UR20_4AI_RTD_DIAG, 0x0406_1544, "UR20_4AI_RTD_DIAG", 4, RTD;
            UR20_4AI_TC_DIAG, 0x0407_1544, "UR20_4AI_TC_DIAG", 4, TC;
            UR20_PF_I, 0, "UR20_PF_I", 0, PF;
            UR20_PF_O, 0, "UR20_PF_O", 0, PF;
            UR20_PF_O_1DI_SIL, 0x1801_9F43, "UR20_PF_O_1DI_SIL", 1, PF;
            UR20_PF_O_2DI_SIL, 0x1803_9F43, "UR20_PF_O_2DI_SIL", 0, PF;
            UR20_PF_O_2DI_DELAY_SIL, 0x1802_9F43, "UR20_PF_O_2DI_DELAY_SIL", 0, PF;
        }
    };
}
pub use crate::catalogue;
