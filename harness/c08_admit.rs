//@same c01_admit
const ABOUT: &[u64] = &[11, 12];
