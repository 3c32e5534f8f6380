//@same c01_admit
const ABOUT: &[u64] = &[2, 3];
