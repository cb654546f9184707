//! What the random generators of the code under test yield.
use crate::sx::*;
static mut MODE: usize = 0;
/// 0: the real XorShift stream; 1..=8: an arbitrary 32-bit value whose number of leading
/// zeros (the tower height of a skip list) is one of the first MODE of 0, 1, 2, 3, 5, 8, 31, 32;
/// 9: an arbitrary symbolic byte (priorities, ties included); 10: an arbitrary symbolic u32.
pub fn set(m: usize) { unsafe { MODE = m } }
#[no_mangle]
pub extern "C" fn vh_xorshift(real: u32) -> u32 {
    const H: [u32; 8] = [0, 1, 2, 32, 3, 31, 5, 8];
    unsafe {
        match MODE {
            0 => real,
            9 => u8() as u32,
            10 => u32(),
            m => {
                let h = H[choose(m)];
                if h == 32 { 0 } else { 0x8000_0000u32 >> h }
            }
        }
    }
}
static mut CTR: u64 = 0x9e3779b97f4a7c15;
#[no_mangle]
pub extern "C" fn vh_thread_rng() -> u32 {
    unsafe {
        CTR = CTR.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (CTR >> 33) as u32
    }
}
