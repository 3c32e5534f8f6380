//@same c01_admit
const ABOUT: &[u64] = &[6, 7];
