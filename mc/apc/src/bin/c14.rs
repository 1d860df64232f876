//! C14: a generated precompile executes its block exactly, or is inactive.
//!
//! All blocks and superblocks of up to three instructions of an alphabet are turned into
//! precompiles. Every one is compared with an interpreter in both directions: rows made
//! from original rows for all initial states satisfy it and have the block's effect, and
//! an exhaustive search of its satisfying rows finds only executions of the block.
use mc_apc::exec::*;
use mc_apc::vm::Op::*;
use mc_apc::vm::*;
use mc_core::rayon::prelude::*;
use mc_core::serde_json::json;
use mc_core::*;

fn alphabet() -> Vec<Ins> {
    vec![
        ins(Add, 1, 1, 1, false),
        ins(Add, 1, 1, 2, true),
        ins(Store, 1, 2, 0, false),
        ins(Load, 1, 2, 0, false),
        ins(Beq, 1, 2, 8, false),
        ins(Sub, 1, 2, 1, true),
        ins(IsZero, 1, 1, 0, false),
        ins(Xor, 2, 1, 1, true),
        ins(Lt, 1, 1, 2, true),
        ins(Mul, 1, 2, 2, true),
        ins(Bne, 1, 2, 12, false),
        ins(Jal, 1, 4, 2, false),
        ins(Load, 0, 2, 1, false),
        ins(Store, 0, 1, 1, false),
        ins(Add, 0, 1, 3, false),
        ins(Sub, 2, 1, 1, true),
        ins(Xor, 1, 2, 2, false),
        ins(Xor, 0, 1, 2, true),
        ins(Lt, 0, 0, 0, true),
        ins(Lt, 2, 1, 2, true),
        ins(Mul, 0, 1, 2, true),
        ins(Load, 2, 2, 0, false),
        ins(Store, 2, 2, 1, false),
        ins(Jal, 2, 12, 0, false),
        ins(IsZero, 0, 2, 0, false),
        ins(IsZero, 2, 1, 0, false),
        ins(Beq, 1, 1, 4, false),
        ins(Bne, 1, 1, 8, false),
        ins(Add, 2, 2, 0, false),
    ]
}

fn main() {
    let c = Check::new(
        "C14",
        "model_checking",
        "all blocks and superblocks of up to three instructions of an alphabet; for each, all runs of an interpreter from all register contents, and all accepted rows",
        &["memory holds two-bit values; last accesses were at one of three times", "values are two bits and the field has 29 elements"],
    );
    let explore = |name: &str, seqs: Vec<Vec<Ins>>, bound: (usize, usize)| {
        let blocks: Vec<Block> = seqs.iter().flat_map(|s| paths(s)).collect();
        c.batch(name, || {
            blocks.par_chunks(4).for_each(|chunk| {
                let ctx = Ctx::new(&c, bound);
                for b in chunk {
                    if !c.violated() {
                        ctx.check(b);
                    }
                }
            });
        });
    };
    let a = alphabet();
    let seqs = |k: usize, n: usize| tuples(k, n).map(|t| t.iter().map(|i| a[*i]).collect()).collect::<Vec<Vec<Ins>>>();
    let deep = thorough();
    explore("one instruction", seqs(a.len(), 1), (3, 2));
    explore("one instruction, other bounds", seqs(a.len(), 1), (4, 3));
    explore("two instructions", seqs(a.len(), 2), (3, 2));
    explore("three instructions", seqs(if deep { a.len() } else { 5 }, 3), (3, 2));
    if deep {
        explore("two instructions, other bounds", seqs(a.len(), 2), (4, 3));
        explore("four instructions", seqs(5, 4), (3, 2));
    }
    c.sample(json!({"block": "Beq 1 2 8; Store 1 2 0 at the branch's target", "compared with": "an interpreter from all 4^2 register contents, and all accepted rows"}));
    c.finish()
}
