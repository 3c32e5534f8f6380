//@same c01_admit
const ABOUT: &[u64] = &[4, 5, 8, 9, 10];
