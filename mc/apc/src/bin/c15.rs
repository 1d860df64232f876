//! C15: basic blocks partition the program at every control-flow boundary.
//!
//! All programs of up to six instructions of four kinds with all sets of jump
//! destinations are split and compared with the definition; all executions of small
//! programs with real branches are checked to pass through whole blocks.
use mc_apc::vm::Op::*;
use mc_apc::vm::*;
use mc_core::rayon::prelude::*;
use mc_core::serde_json::json;
use mc_core::*;
use powdr_autoprecompiles::adapter::{Adapter, PgoAdapter};
use powdr_autoprecompiles::blocks::{collect_basic_blocks, BasicBlock, Program};
use powdr_autoprecompiles::empirical_constraints::EmpiricalConstraints;
use powdr_autoprecompiles::pgo::NonePgo;
use powdr_autoprecompiles::{DegreeBound, PowdrConfig};
use std::collections::{BTreeMap, BTreeSet};

fn pc(base: u64, i: usize) -> u64 {
    base + 4 * i as u64
}

/// Where the definition says a new block starts.
fn starts(code: &[Ins], base: u64, dests: &BTreeSet<u64>) -> Vec<usize> {
    let special = |i: &Ins| matches!(i.op, Beq | Bne | Jal | Halt);
    (0..code.len()).filter(|&i| i == 0 || dests.contains(&pc(base, i)) || special(&code[i - 1]) || code[i].op == Halt).collect()
}

fn check(c: &Check, code: &[Ins], base: u64, dests: &BTreeSet<u64>) -> Option<Vec<BasicBlock<Ins>>> {
    c.eval(1);
    let text = || format!("{} at {base} with destinations {dests:?}", code.iter().map(|i| format!("{:?}", i.op)).collect::<Vec<_>>().join(" "));
    let program = Code(base, code.to_vec());
    let blocks = match quiet_catch(|| collect_basic_blocks::<Vm>(&program, dests)) {
        Ok(b) => b,
        Err(e) => {
            c.violation("panic", format!("{}: {e}", text()));
            return None;
        }
    };
    let shown = || blocks.iter().map(|b| format!("{}..+{}", b.start_pc, b.instructions.len())).collect::<Vec<_>>().join(", ");
    let fail = |kind: &str, what: &str| {
        c.violation(kind, format!("{}: {what}: {}", text(), shown()));
        None
    };
    // the blocks concatenated are the program, in order
    let mut at = 0;
    for b in &blocks {
        if b.instructions.is_empty() {
            return fail("empty block", "an empty block");
        }
        if b.start_pc != pc(base, at) {
            return fail("start", "a block does not start where the previous one ends");
        }
        if at + b.instructions.len() > code.len() || b.instructions[..] != code[at..at + b.instructions.len()] {
            return fail("contents", "the instructions differ");
        }
        let own: Vec<u64> = (at..at + b.instructions.len()).map(|i| pc(base, i)).collect();
        if b.pcs().collect::<Vec<_>>() != own || b.instructions().map(|(p, _)| p).ne(own.iter().copied()) || b.instructions().map(|(_, i)| i).ne(&b.instructions) {
            return fail("program counters", "wrong program counters");
        }
        at += b.instructions.len();
    }
    if at != code.len() {
        return fail("contents", "not the whole program");
    }
    for b in &blocks {
        let own: Vec<u64> = b.pcs().collect();
        if own[1..].iter().any(|p| dests.contains(p)) {
            return fail("jump destination", "a jump destination within a block");
        }
        if b.instructions[..b.instructions.len() - 1].iter().any(|i| Vm::is_branching(i)) {
            return fail("branch", "a branch within a block");
        }
        if b.instructions.len() > 1 && b.instructions.iter().any(|i| !Vm::is_allowed(i)) {
            return fail("not allowed", "a block contains an instruction that is not allowed");
        }
    }
    if blocks.iter().map(|b| b.start_pc).ne(starts(code, base, dests).into_iter().map(|i| pc(base, i))) {
        return fail("boundaries", "other boundaries than control flow has");
    }
    if blocks.len() > 1 {
        c.nontrivial(1);
    }
    Some(blocks)
}

fn main() {
    let c = Check::new(
        "C15",
        "model_checking",
        "all programs of up to seven instructions of four kinds with all sets of jump destinations, and all executions of all small programs with real branches",
        &["the set of jump destinations given is complete (see C23)"],
    );
    let deep = thorough();
    let kinds = [ins(Add, 1, 1, 1, false), ins(Beq, 1, 2, 8, false), ins(Halt, 0, 0, 0, false), ins(Jal, 1, 8, 0, false)];
    c.batch("all programs", || {
        for n in 1..=if deep { 8 } else { 7 } {
            (0..1usize << n).into_par_iter().for_each(|set| {
                for base in [0u64, 0x200] {
                    let mut dests: BTreeSet<u64> = (0..n).filter(|i| set >> i & 1 == 1).map(|i| pc(base, i)).collect();
                    // and some that are not in the program or not instructions
                    dests.extend([pc(base, n), base + 2, 1 << 40]);
                    for t in tuples(kinds.len(), n) {
                        c.states(1);
                        // distinguishable instructions
                        let code: Vec<Ins> = t.iter().enumerate().map(|(k, i)| Ins { b: k as u32, ..kinds[*i] }).collect();
                        check(&c, &code, base, &dests);
                    }
                }
            });
        }
    });

    // all executions of all small programs with forward and backward branches
    let targets = |n: usize| (0..n as i64).collect::<Vec<_>>();
    c.batch("executions", || {
        let sizes = if deep { 2..=7 } else { 2..=6 };
        for n in sizes {
            // each instruction: plain, branch to a target, jump to a target, or halt
            let options = 2 + 2 * targets(n).len();
            tuples(options, n).collect::<Vec<_>>().par_iter().for_each(|t| {
                if c.violated() {
                    return;
                }
                let dest = |o: usize| (o - 2) % n;
                let code: Vec<Ins> = t
                    .iter()
                    .enumerate()
                    .map(|(k, o)| match *o {
                        0 => ins(Add, 1, k as u32, 1, false),
                        1 => ins(Halt, 0, 0, 0, false),
                        o if o < 2 + n => ins(Beq, 1, k as u32, 0, false),
                        _ => ins(Jal, 1, k as u32, 0, false),
                    })
                    .collect();
                let dests: BTreeSet<u64> = t.iter().filter(|o| **o >= 2).map(|o| pc(0, dest(*o))).collect();
                let Some(blocks) = check(&c, &code, 0, &dests) else { return };
                let whole: BTreeMap<u64, usize> = blocks.iter().map(|b| (b.start_pc, b.instructions.len())).collect();
                // control flow graph: every transfer of control is inside a block or from an end to a start
                let ends: BTreeSet<usize> = whole.iter().map(|(s, l)| *s as usize / 4 + l - 1).collect();
                let mut seen = BTreeSet::new();
                let mut todo = vec![0usize];
                while let Some(i) = todo.pop() {
                    if i >= n || !seen.insert(i) {
                        continue;
                    }
                    let next: Vec<usize> = match t[i] {
                        0 => vec![i + 1],
                        1 => vec![i + 1],
                        o if o < 2 + n => vec![i + 1, dest(o)],
                        o => vec![dest(o)],
                    };
                    for j in next {
                        c.transitions(1);
                        let within = j == i + 1 && !ends.contains(&i);
                        let across = ends.contains(&i) && (j >= n || whole.contains_key(&pc(0, j)));
                        if !within && !across {
                            c.violation("control flow", format!("{code:?} {t:?}: control passes from {i} to {j} through the middle of a block"));
                        }
                        todo.push(j);
                    }
                }
            });
        }
    });

    // the blocks that are kept for precompiles
    c.batch("kept blocks", || {
        tuples(kinds.len(), 4).collect::<Vec<_>>().par_iter().for_each(|t| {
            for set in 0..1usize << 4 {
                let base = 4;
                let dests: BTreeSet<u64> = (0..4).filter(|i| set >> i & 1 == 1).map(|i| pc(base, i)).collect();
                let code: Vec<Ins> = t.iter().map(|i| Ins { c: if kinds[*i].op == Beq { 4 } else { 1 }, ..kinds[*i] }).collect();
                let blocks = collect_basic_blocks::<Vm>(&Code(base, code), &dests);
                let want: BTreeSet<u64> = blocks.iter().filter(|b| b.instructions.len() > 1).map(|b| b.start_pc).collect();
                let airs = Airs::default();
                let config = PowdrConfig::new(10, 0, DegreeBound { identities: 3, bus_interactions: 2 });
                c.eval(1);
                let apcs = c.run(
                    || "kept blocks".into(),
                    || NonePgo::<Vm>::default().filter_blocks_and_create_apcs_with_pgo(blocks.clone(), &config, vm_config(&airs), BTreeMap::new(), EmpiricalConstraints::default()),
                );
                match apcs {
                    Ok(apcs) => {
                        let got: Vec<u64> = apcs.iter().map(|a| a.apc().start_pcs()[0]).collect();
                        if apcs.iter().any(|a| a.apc().instructions().any(|i| !Vm::is_allowed(i))) {
                            c.violation("kept", format!("{t:?} {dests:?}: a kept block contains an instruction that is not allowed"));
                        }
                        if got.len() != want.len() || got.into_iter().collect::<BTreeSet<_>>() != want {
                            c.violation("kept", format!("{t:?} {dests:?}: the blocks kept are not those with several instructions"));
                        }
                    }
                    Err(e) => c.violation("kept", format!("{t:?} {dests:?}: {e}")),
                }
            }
        });
    });
    c.sample(json!({"program": "Add Beq Halt Add", "destinations": [12], "blocks": ["0..+2", "8..+1", "12..+1"]}));
    let _ = Code(0, vec![]).length();
    c.finish()
}
