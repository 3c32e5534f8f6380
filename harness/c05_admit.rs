//@same c01_admit
const ABOUT: &[u64] = &[0, 1];
