// Oracle copy of the parameters (tools/gen_params.py).
pub const NAME: &str = "toy";
pub const NL: usize = 4;
pub const P_HEX: &str = "1a0a483ccb8ddd525924587a4d78f6bffffffffffffffffffffffffffffffff";
pub const L_POWER: u32 = 130;
pub const D1_HEX: &str = "30179a038091";
pub const D1_FACTORED: &[(u32, u32)] = &[(3, 6), (29, 2), (37, 2), (251, 2)];
pub const D2_HEX: &str = "b44cccc7bf";
pub const D2_FACTORED: &[(u32, u32)] = &[(5, 2), (7, 3), (13, 2), (17, 2), (43, 2)];
pub const DA1_HEX: &str = "b73a159";
pub const DA1_FACTORED: &[(u32, u32)] = &[(83, 1), (167, 1)];
pub const DA2_HEX: &str = "19db591";
pub const DA2_FACTORED: &[(u32, u32)] = &[(41, 1), (127, 1)];
