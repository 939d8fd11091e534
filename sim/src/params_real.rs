// Oracle copy of the parameters (tools/gen_params.py).
pub const NAME: &str = "real";
pub const NL: usize = 21;
pub const P_HEX: &str = "176c11cf13e54b11406fcec87bd4c1480f2bf6b3cf47c54370febd1c756e54f72c1501712922baf5993402979d50dd13d09a841fed4773cfdb168f19a73e323f656921d7dcd797059b7b9ac3245c4d7be6b343ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff";
pub const L_POWER: u32 = 634;
pub const D1_HEX: &str = "16c1b23a83ca861e79769376c62f334bb8f6346c820a0e9bd6a652d42ecf246b9";
pub const D1_FACTORED: &[(u32, u32)] = &[(3, 6), (19, 2), (29, 2), (37, 2), (83, 2), (139, 2), (167, 2), (251, 2), (419, 2), (421, 2), (701, 2), (839, 2), (1009, 2), (1259, 2), (3061, 2), (3779, 2)];
pub const D2_HEX: &str = "db6b524664d2555466fa41a3469cb451c0b756a33b3fdd8f09edc26e4e9035ddf";
pub const D2_FACTORED: &[(u32, u32)] = &[(5, 4), (7, 3), (11, 2), (13, 2), (17, 2), (41, 2), (43, 2), (71, 2), (89, 2), (127, 2), (211, 2), (281, 2), (503, 2), (631, 2), (2309, 2), (2521, 2), (2647, 2), (2729, 2)];
pub const DA1_HEX: &str = "1b2bf4bcb60c53c92ce3979";
pub const DA1_FACTORED: &[(u32, u32)] = &[(59, 1), (6299, 1), (6719, 1), (9181, 1)];
pub const DA2_HEX: &str = "b0a040016200dd7aef931432de49a55e8dba3671f8a4c9";
pub const DA2_FACTORED: &[(u32, u32)] = &[(3023, 1), (3359, 1), (4409, 1), (5039, 1), (19531, 1), (22679, 1), (41161, 1)];
