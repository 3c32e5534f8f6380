//@same c01_admit
const ABOUT: &[u64] = &[13, 14, 15, 16];
