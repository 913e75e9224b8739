mod common;
mod universe;
mod cio;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod pgen;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c15;
mod c16;
mod c17;
mod c18;
mod c20;
mod c22;
mod c23;
mod c24;
mod c26;
mod c27;
mod c28;
mod c32;
mod c33;
mod c34;
mod c35;
mod c36;
mod c37;
mod huge;
mod race;
mod alloc;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

use kit::ctx::Check;

fn main() {
    let checks = [
        Check { id: "C01", level: "exploration", run: c01::run },
        Check { id: "C02", level: "exploration", run: c02::run },
        Check { id: "C03", level: "model_checking", run: c03::run },
        Check { id: "C04", level: "exploration", run: c04::run },
        Check { id: "C05", level: "fault_enumeration", run: c05::run },
        Check { id: "C06", level: "exploration", run: c06::run },
        Check { id: "C07", level: "exploration", run: c07::run },
        Check { id: "C08", level: "exploration", run: c08::run },
        Check { id: "C09", level: "exploration", run: c09::run },
        Check { id: "C10", level: "exploration", run: c10::run },
        Check { id: "C11", level: "model_checking", run: c11::run },
        Check { id: "C12", level: "exploration", run: c12::run12 },
        Check { id: "C13", level: "model_checking", run: c12::run13 },
        Check { id: "C14", level: "exploration", run: c12::run14 },
        Check { id: "C15", level: "fault_enumeration", run: c15::run },
        Check { id: "C16", level: "exploration", run: c16::run },
        Check { id: "C17", level: "exploration", run: c17::run17 },
        Check { id: "C18", level: "fault_enumeration", run: c18::run },
        Check { id: "C19", level: "exploration", run: c17::run19 },
        Check { id: "C20", level: "exploration", run: c20::run20 },
        Check { id: "C21", level: "exploration", run: c20::run21 },
        Check { id: "C22", level: "fault_enumeration", run: c22::run22 },
        Check { id: "C23", level: "fault_enumeration", run: c23::run },
        Check { id: "C24", level: "fault_enumeration", run: c24::run24 },
        Check { id: "C25", level: "fault_enumeration", run: c24::run25 },
        Check { id: "C26", level: "model_checking", run: c26::run },
        Check { id: "C27", level: "exploration", run: c27::run27 },
        Check { id: "C28", level: "fault_enumeration", run: c28::run28 },
        Check { id: "C29", level: "exploration", run: c28::run29 },
        Check { id: "C30", level: "exploration", run: c27::run30 },
        Check { id: "C31", level: "fault_enumeration", run: c22::run31 },
        Check { id: "C32", level: "fault_enumeration", run: c32::run },
        Check { id: "C33", level: "exploration", run: c33::run },
        Check { id: "C34", level: "exploration", run: c34::run },
        Check { id: "C35", level: "exploration", run: c35::run },
        Check { id: "C36", level: "exploration", run: c36::run },
        Check { id: "C37", level: "exploration", run: c37::run },
    ];
    kit::ctx::main(&checks)
}
