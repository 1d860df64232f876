//! C16: superblocks and their counts reflect the profiled execution.
//!
//! All executions of up to eight basic blocks out of four with all limits; the blocks
//! found are compared with the definition, counts with the best possible placement.
use mc_apc::vm::Op::*;
use mc_apc::vm::*;
use mc_core::rayon::prelude::*;
use mc_core::serde_json::json;
use mc_core::*;
use powdr_autoprecompiles::blocks::{detect_superblocks, find_non_overlapping, BasicBlock};
use powdr_autoprecompiles::execution_profile::execution_profile;
use powdr_autoprecompiles::{DegreeBound, PowdrConfig};
use std::collections::{BTreeMap, BTreeSet};

/// The largest number of non-overlapping occurrences, by trying everything.
fn most(hay: &[u64], needle: &[u64]) -> u32 {
    let n = hay.len();
    let mut best = vec![0u32; n + 1];
    for i in (0..n).rev() {
        best[i] = best[i + 1];
        if hay[i..].starts_with(needle) {
            best[i] = best[i].max(1 + best[i + needle.len()]);
        }
    }
    best[0]
}

fn block(start: u64, len: usize) -> BasicBlock<Ins> {
    BasicBlock { start_pc: start, instructions: (0..len).map(|k| ins(Add, 1, k as u32, (start / 4) as u32, false)).collect() }
}

fn main() {
    let c = Check::new(
        "C16",
        "model_checking",
        "all executions of up to eight basic blocks out of four, with all limits",
        &["an execution consists of complete basic blocks"],
    );
    let deep = thorough();
    // block lengths of the program's blocks
    let programs: &[&[usize]] = &[&[2, 1, 3, 2], &[2, 2, 2, 2], &[1, 4, 1, 2], &[3, 1, 1, 5]];
    for lens in programs {
        let mut blocks = vec![];
        let mut at = 0x40;
        for l in lens.iter() {
            blocks.push(block(at, *l));
            at += 4 * *l as u64;
        }
        let longest = if deep { 8 } else { 7 };
        c.batch(&format!("{lens:?}"), || {
            for n in 0..=longest {
                tuples(4, n).collect::<Vec<_>>().par_iter().for_each(|exec| {
                    if c.violated() {
                        return;
                    }
                    c.states(1);
                    let pcs: Vec<u64> = exec.iter().flat_map(|b| blocks[*b].pcs().collect::<Vec<_>>()).collect();
                    // the runs of this execution
                    let mut runs: Vec<Vec<u64>> = vec![vec![]];
                    for b in exec {
                        if lens[*b] == 1 {
                            runs.push(vec![]);
                        } else {
                            runs.last_mut().unwrap().push(blocks[*b].start_pc);
                        }
                    }
                    runs.retain(|r| !r.is_empty());
                    let mut counts: BTreeMap<Vec<u64>, u32> = BTreeMap::new();
                    for r in &runs {
                        for len in 1..=r.len() {
                            for w in r.windows(len) {
                                counts.entry(w.to_vec()).or_insert(0);
                            }
                        }
                    }
                    for (s, k) in counts.iter_mut() {
                        *k = runs.iter().map(|r| most(r, s)).sum();
                    }
                    let size = |s: &[u64]| s.iter().map(|p| blocks.iter().find(|b| b.start_pc == *p).unwrap().instructions.len()).sum::<usize>();
                    for max_bb in [1u8, 2, 3, 4, 255] {
                        for cutoff in [0u32, 1, 2, 3] {
                            for max_ins in [1u32, 2, 4, 5, u32::MAX] {
                                c.eval(1);
                                let mut cfg = PowdrConfig::new(1, 0, DegreeBound { identities: 3, bus_interactions: 2 });
                                cfg = cfg.with_superblocks(max_bb, Some(max_ins), Some(cutoff));
                                let text = || format!("blocks of {lens:?} instructions, execution {exec:?}, at most {max_bb} blocks and {max_ins} instructions, cutoff {cutoff}");
                                let got = match quiet_catch(|| detect_superblocks(&cfg, &pcs, blocks.clone())) {
                                    Ok(g) => g,
                                    Err(e) => {
                                        c.violation("panic", format!("{}: {e}", text()));
                                        return;
                                    }
                                };
                                let want: BTreeMap<Vec<u64>, u32> = counts
                                    .iter()
                                    .filter(|(s, k)| s.len() <= max_bb as usize && **k >= cutoff && size(s) <= max_ins as usize)
                                    .map(|(s, k)| (s.clone(), *k))
                                    .collect();
                                let mut have = BTreeMap::new();
                                for b in &got.blocks {
                                    if have.insert(b.block.start_pcs(), b.count).is_some() {
                                        c.violation("duplicate", format!("{}: {:?} is offered twice", text(), b.block.start_pcs()));
                                    }
                                    let whole = b.block.blocks().all(|bb| blocks.iter().any(|o| o.start_pc == bb.start_pc && o.instructions == bb.instructions));
                                    let flat: Vec<(u64, Ins)> = b.block.blocks().flat_map(|bb| bb.instructions().map(|(p, i)| (p, *i)).collect::<Vec<_>>()).collect();
                                    if !whole || b.block.instructions().map(|(p, i)| (p, *i)).ne(flat.iter().copied()) || b.block.pcs().ne(flat.iter().map(|f| f.0)) {
                                        c.violation("contents", format!("{}: {:?} does not consist of the program's blocks", text(), b.block.start_pcs()));
                                    }
                                }
                                if have != want {
                                    c.violation("blocks", format!("{}: offered {have:?} instead of {want:?}", text()));
                                }
                                let mut rs: BTreeMap<Vec<u64>, u32> = BTreeMap::new();
                                for (r, k) in &got.execution_bb_runs {
                                    *rs.entry(r.0.clone()).or_insert(0) += k;
                                }
                                let mut real: BTreeMap<Vec<u64>, u32> = BTreeMap::new();
                                for r in &runs {
                                    *real.entry(r.clone()).or_insert(0) += 1;
                                }
                                if rs != real || got.execution_bb_runs.len() != rs.len() {
                                    c.violation("runs", format!("{}: the runs are {:?}", text(), got.execution_bb_runs));
                                }
                                if want.values().any(|k| *k > 1) {
                                    c.nontrivial(1);
                                }
                            }
                        }
                    }
                });
            }
        });
    }
    // occurrences
    c.batch("occurrences", || {
        for n in 0..=9 {
            tuples(if n > 7 { 2 } else { 3 }, n).collect::<Vec<_>>().par_iter().for_each(|hay| {
                let hay: Vec<u64> = hay.iter().map(|x| *x as u64).collect();
                for m in 1..=4 {
                    for needle in tuples(3, m) {
                        let needle: Vec<u64> = needle.iter().map(|x| *x as u64).collect();
                        c.eval(1);
                        let at = find_non_overlapping(&hay, &needle);
                        let ok = at.iter().all(|i| hay[*i..].starts_with(&needle)) && at.windows(2).all(|w| w[0] + m <= w[1]);
                        if !ok || at.len() as u32 != most(&hay, &needle) {
                            c.violation("occurrences", format!("{needle:?} in {hay:?}: {at:?}"));
                        }
                    }
                }
            });
        }
    });
    // the profile collected
    c.batch("profile", || {
        for n in 1..=6 {
            for exec in tuples(4, n) {
                c.eval(1);
                let p = execution_profile::<Vm>(&Code(0, vec![]), || {
                    for (k, i) in exec.iter().enumerate() {
                        tracing::trace!(pc = *i as u64 * 4, other = k as u64);
                        if k % 2 == 0 {
                            tracing::trace!(other = 7u64, "something else");
                        }
                    }
                });
                let list: Vec<u64> = exec.iter().map(|i| *i as u64 * 4).collect();
                let pcs: BTreeSet<u64> = list.iter().copied().collect();
                let ok = p.pc_list == list && p.pc_count.len() == pcs.len() && pcs.iter().all(|x| p.pc_count[x] as usize == list.iter().filter(|y| *y == x).count());
                if !ok {
                    c.violation("profile", format!("{list:?} was recorded as {:?} {:?}", p.pc_list, p.pc_count));
                }
            }
        }
    });
    c.sample(json!({"execution": "a b a b a", "superblock": "a b a", "count": 1}));
    c.finish()
}
