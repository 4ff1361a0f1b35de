//! Stands in for `core` while the guest runtime is verified on the host: everything of core, with
//! the two assembly macros replaced. `mv {}, sp` yields the stack pointer the contract chose.
pub use ::core::*;
pub static mut SP: usize = 0;
/// end of the static data of the guest image (a linker symbol on the real target)
#[repr(C, align(4096))]
pub struct End([u8; 4096]);
#[cfg(not(heap_history))]
#[no_mangle]
pub static _end: End = End([0; 4096]);
/// native runs of whole histories: memory that exists, with the end of static data at an odd address
pub const ARENA_SIZE: usize = 1 << 20;
#[cfg(heap_history)]
#[repr(C, align(4096))]
pub struct Arena(pub [u8; ARENA_SIZE]);
#[cfg(heap_history)]
#[no_mangle]
pub static mut HEAP_ARENA: Arena = Arena([0; ARENA_SIZE]);
#[cfg(heap_history)]
::core::arch::global_asm!(".globl _end", ".set _end, HEAP_ARENA + 3");
#[cfg(heap_history)]
extern "C" { pub static _end: u8; }
pub mod arch {
    #[macro_export]
    macro_rules! __asm {
        ("mv {}, sp", out(reg) $v:ident $(,)?) => { $v = unsafe { $crate::SP } };
        ("mv {0}, sp", out(reg) $v:ident $(,)?) => { $v = unsafe { $crate::SP } };
        ("mv {0}, sp", out(reg) $v:ident, options($($o:tt)*) $(,)?) => { $v = unsafe { $crate::SP } };
        ("mv {}, sp", out(reg) $v:ident, options($($o:tt)*) $(,)?) => { $v = unsafe { $crate::SP } };
    }
    #[macro_export]
    macro_rules! __global_asm { ($($t:tt)*) => {} }
    pub use crate::__asm as asm;
    pub use crate::__global_asm as global_asm;
}
