// The call interface between the simulator and a node (an image of the real
// library). Included by path from both sides.
#[allow(dead_code)]
pub mod abi {
    /// Arguments of one call. Pointers lie in memory the simulator owns.
    #[repr(C)]
    pub struct Args {
        pub p: [*mut u8; 6],
        pub n: [usize; 6],
        pub sink: Option<unsafe extern "C" fn(*mut u8, *const u8, usize) -> i32>,
        pub ctx: *mut u8,
    }

    pub const PANIC: i32 = -100;
    pub const BADOP: i32 = -101;
    pub const AGED: i32 = -102;

    // word = op | w << 8 | ks << 12 | dir << 16 | form << 20
    //   w:   0, 1, 2   -> 1, 2, 4 blocks
    //   ks:  0, 1, 2   -> 16, 24, 32 byte keys
    //   dir: 0 encrypter, 1 decrypter
    pub const fn word(op: u32, w: u32, ks: u32, dir: u32, form: u32) -> u32 {
        op | w << 8 | ks << 12 | dir << 16 | form << 20
    }

    pub const INFO: u32 = 0; // n0..n3 <- size/align of block(w), size/align of cipher(ks,dir)
    pub const KEY_NEW: u32 = 1; // p0 <- cipher from bytes p1
    pub const KEY_CLONE: u32 = 2; // p0 <- clone of cipher p1; form 1: clone_from into the live cipher p0
    pub const KEY_CONV: u32 = 3; // p0 <- other direction of cipher p1 (dir is p1's)
    pub const KEY_DROP: u32 = 4; // drop cipher p0
    pub const KEY_MOVE: u32 = 5; // p0 <- moved from p1
    pub const KEY_FMT: u32 = 6; // Debug of cipher p1 to sink; form: 0 plain, 1 alternate, 2.. with flags
    pub const CRYPT: u32 = 7; // p0 <- cipher p1 applied to block p2
    pub const NEW: u32 = 10; // p0 <- block from bytes p1; form: constructor
    pub const BYTES: u32 = 11; // p0(bytes) <- block p1; form: accessor
    pub const STORE: u32 = 12; // block p1 .store_to(p0[..n0])
    pub const TRY: u32 = 13; // p0 <- try_from(&p1[..n0]); returns 1 and n1 <- error value if refused
    pub const BIN: u32 = 14; // p0 <- p1 (form) p2: 0 & 1 | 2 ^ 3 &= 4 |= 5 ^=
    pub const NOT: u32 = 15; // p0 <- !p1
    pub const EQ: u32 = 16; // returns p1 == p2, form 1: p1 != p2
    pub const ISZERO: u32 = 17; // returns p1.is_zero()
    pub const ZERO: u32 = 18; // p0 <- zero() (form 0) or default() (form 1)
    pub const ROUND: u32 = 19; // p0 <- p1.(form: enc dec enc_last dec_last)(p2)
    pub const MC: u32 = 20; // p0 <- p1.(form: mc imc)(), w = 0
    pub const CHAIN: u32 = 21; // p0 <- p1.(form: chain_enc chain_dec)(&p2[..n0])
    pub const JOIN: u32 = 22; // p0 <- wide block from narrow blocks p1..p4; form: which
    pub const SPLIT: u32 = 23; // p0..p3 <- narrow blocks from wide block p4; form: which
    pub const FMT: u32 = 24; // block p1 to sink; form: kind << 1 | alternate, 10.. with flags
    pub const COPY: u32 = 25; // p0 <- *p1
    /// Repeats n0 times: call n3 with arguments p3 if p3 is given, then call n1
    /// with arguments p0. Returns the result of the first repetition, or AGED
    /// if a later result, or the n2 bytes at p1 after it, differ from the first.
    pub const AGE: u32 = 30;
    pub const ALLOC_SELFTEST: u32 = 31; // requests memory; returns 1 if refused
    pub const ENV_SELFTEST: u32 = 32; // asks the environment for something; form: what

    // JOIN forms (w is the wide width)
    pub const J_X2_FROM_2: u32 = 0; // (A, A) -> X2
    pub const J_X2_FROM_1: u32 = 1; // A -> X2
    pub const J_X4_FROM_4: u32 = 2; // (A, A, A, A) -> X4
    pub const J_X4_FROM_22: u32 = 3; // (X2, X2) -> X4
    pub const J_X4_FROM_1: u32 = 4; // A -> X4
    pub const J_X4_FROM_2: u32 = 5; // X2 -> X4
    // SPLIT forms
    pub const S_X2_TO_2: u32 = 0;
    pub const S_X4_TO_4: u32 = 1;
    pub const S_X4_TO_22: u32 = 2;

    // FMT kinds
    pub const F_DEBUG: u32 = 0;
    pub const F_DISPLAY: u32 = 1;
    pub const F_BINARY: u32 = 2;
    pub const F_LOWER: u32 = 3;
    pub const F_UPPER: u32 = 4;
}
