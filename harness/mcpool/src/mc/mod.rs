//! Explorer (`explore`) and cooperative scheduler (`sched`).
pub mod explore;
pub mod sched;

/// What a choice point is about (part of the trace, checked on replay).
pub mod label {
    pub const POOL_DROP: u32 = 1;
    pub const POLL: u32 = 2;
    pub const COMPLETE: u32 = 3;
    pub const SUBMIT: u32 = 4;
    pub const START: u32 = 5;
    pub const END: u32 = 6;
    pub const BLOCK: u32 = 7;
    pub const SYSCALL: u32 = 8;
    pub const USER: u32 = 100;
    pub fn name(l: u32) -> &'static str {
        match l {
            1 => "pool-drop",
            2 => "poll",
            3 => "complete",
            4 => "submit",
            5 => "start",
            6 => "end",
            7 => "block",
            8 => "syscall",
            _ => "env",
        }
    }
}
