//! C20: empirical constraints are never stronger than what was observed.
//!
//! Partitions: all partitions of up to five elements, all pairs and triples of them.
//! Observations: all families of two and three over an alphabet, in every order and
//! grouping. Selection: all blocks and superblocks over an alphabet with all predicates.
//! Finally precompiles are built under the constraints combined from observed runs; they
//! have to accept every observed run and nothing but executions of the block.
use mc_apc::exec::*;
use mc_apc::vm::Op::*;
use mc_apc::vm::*;
use mc_core::rayon::prelude::*;
use mc_core::serde_json::{self, json};
use mc_core::*;
use powdr_autoprecompiles::blocks::{BasicBlock, SuperBlock};
use powdr_autoprecompiles::empirical_constraints::*;
use powdr_autoprecompiles::expression::AlgebraicReference;
use powdr_autoprecompiles::optimistic::algebraic_references::BlockCellAlgebraicReferenceMapper;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// A partition as the class of every element.
type Labels = Vec<usize>;

fn partitions(n: usize) -> Vec<Labels> {
    let mut out: Vec<Labels> = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|l| {
                let k = l.iter().max().map_or(0, |m| m + 1);
                (0..=k).map(move |c| [l.clone(), vec![c]].concat())
            })
            .collect();
    }
    out
}
fn refine(a: &Labels, b: &Labels) -> Labels {
    let mut seen = vec![];
    a.iter()
        .zip(b)
        .map(|p| match seen.iter().position(|q| q == &p) {
            Some(i) => i,
            None => {
                seen.push(p);
                seen.len() - 1
            }
        })
        .collect()
}
/// The lists of elements, including classes of one element if asked for.
fn classes<T: Clone>(l: &Labels, elements: &[T], singles: bool) -> Vec<Vec<T>> {
    let k = l.iter().max().map_or(0, |m| m + 1);
    (0..k)
        .map(|c| l.iter().zip(elements).filter(|(x, _)| **x == c).map(|(_, e)| e.clone()).collect::<Vec<_>>())
        .filter(|c| singles || c.len() > 1)
        .collect()
}
fn canonical<T: Ord>(classes: Vec<Vec<T>>) -> Result<BTreeSet<BTreeSet<T>>, String> {
    let mut out = BTreeSet::new();
    for c in classes {
        let n = c.len();
        let c: BTreeSet<T> = c.into_iter().collect();
        if n < 2 || c.len() != n {
            return Err(format!("a class of {n} elements ({} different)", c.len()));
        }
        if !out.insert(c) {
            return Err("a class twice".into());
        }
    }
    Ok(out)
}
fn same(p: &Partition<u32>, l: &Labels, elements: &[u32]) -> Result<(), String> {
    let got = canonical(p.to_classes())?;
    let want = canonical(classes(l, elements, false)).unwrap();
    if got != want {
        return Err(format!("{got:?} instead of {want:?}"));
    }
    Ok(())
}
fn partition(l: &Labels, elements: &[u32], singles: bool) -> Partition<u32> {
    classes(l, elements, singles).into_iter().collect()
}

type Ranges = Option<Vec<(u32, u32)>>;
/// What is known of every program counter and of every block, and a count.
#[derive(Clone, Debug)]
struct Obs {
    ranges: Vec<(u32, Ranges)>,
    blocks: Vec<(u64, Option<Labels>)>,
    count: u64,
}
impl Obs {
    fn cells(n: usize) -> Vec<BlockCell> {
        (0..n).map(|i| BlockCell::new(i / 2, i % 2)).collect()
    }
    fn real(&self) -> EmpiricalConstraints {
        EmpiricalConstraints {
            column_ranges_by_pc: self.ranges.iter().filter_map(|(pc, r)| Some((*pc, r.clone()?))).collect(),
            equivalence_classes_by_block: self
                .blocks
                .iter()
                .filter_map(|(pc, l)| l.as_ref().map(|l| (*pc, classes(l, &Self::cells(l.len()), false).into_iter().collect())))
                .collect(),
            debug_info: DebugInfo {
                air_id_by_pc: self.ranges.iter().filter(|r| r.1.is_some()).map(|(pc, _)| (*pc, *pc as usize + 1)).collect(),
                column_names_by_air_id: BTreeMap::from([(5, vec!["a".into(), "b".into()])]),
            },
            pc_counts: self.ranges.iter().filter(|r| r.1.is_some()).map(|(pc, _)| (*pc, self.count)).collect(),
        }
    }
    /// Whether constraints are exactly those of several observations.
    fn combined(all: &[&Obs], got: &EmpiricalConstraints) -> Result<(), String> {
        let mut ranges: BTreeMap<u32, Vec<(u32, u32)>> = BTreeMap::new();
        let mut blocks: BTreeMap<u64, Labels> = BTreeMap::new();
        let mut counts: BTreeMap<u32, u64> = BTreeMap::new();
        for o in all {
            for (pc, r) in &o.ranges {
                let Some(r) = r else { continue };
                *counts.entry(*pc).or_default() += o.count;
                ranges.entry(*pc).and_modify(|e| e.iter_mut().zip(r).for_each(|(a, b)| *a = (a.0.min(b.0), a.1.max(b.1)))).or_insert(r.clone());
            }
            for (pc, l) in &o.blocks {
                let Some(l) = l else { continue };
                blocks.entry(*pc).and_modify(|e| *e = refine(e, l)).or_insert(l.clone());
            }
        }
        if got.column_ranges_by_pc != ranges {
            return Err(format!("ranges {:?} instead of {ranges:?}", got.column_ranges_by_pc));
        }
        if got.pc_counts != counts {
            return Err(format!("counts {:?} instead of {counts:?}", got.pc_counts));
        }
        if got.debug_info.air_id_by_pc != ranges.keys().map(|pc| (*pc, *pc as usize + 1)).collect() {
            return Err(format!("debug information {:?}", got.debug_info));
        }
        if got.equivalence_classes_by_block.keys().ne(blocks.keys()) {
            return Err(format!("blocks {:?}", got.equivalence_classes_by_block.keys()));
        }
        for (pc, l) in &blocks {
            let have = canonical(got.equivalence_classes_by_block[pc].to_classes())?;
            let want = canonical(classes(l, &Self::cells(l.len()), false)).unwrap();
            if have != want {
                return Err(format!("equal cells of {pc} {have:?} instead of {want:?}"));
            }
        }
        Ok(())
    }
}
fn merge(mut a: EmpiricalConstraints, b: EmpiricalConstraints) -> EmpiricalConstraints {
    a.combine_with(b);
    a
}

const WIDTH: usize = 2;
type Facts = (BTreeSet<(u64, u32)>, BTreeSet<BTreeSet<u64>>);

/// The facts that are added as constraints; columns are numbered 10 for every
/// instruction.
fn facts(block: &SuperBlock<Ins>, e: BlockEmpiricalConstraints) -> Facts {
    let n = block.instructions().count();
    let subs: Vec<Vec<u64>> = (0..n as u64).map(|i| (0..WIDTH as u64).map(|c| 10 * i + c).collect()).collect();
    let columns: Vec<AlgebraicReference> = subs.iter().flatten().map(|id| AlgebraicReference { name: Arc::new(format!("c{id}")), id: *id }).collect();
    let g = ConstraintGenerator::<Vm>::new(e, BlockCellAlgebraicReferenceMapper::new(&subs, columns.into_iter()), block);
    let mut values = BTreeSet::new();
    let mut sets: Vec<BTreeSet<u64>> = vec![];
    for k in g.generate_constraints() {
        match (k.left, k.right) {
            (EqualityExpression::Reference(l), EqualityExpression::Number(n)) => {
                values.insert((l.id, n.val()));
            }
            (EqualityExpression::Reference(l), EqualityExpression::Reference(r)) => {
                let (mut joined, rest): (Vec<_>, Vec<_>) = sets.into_iter().partition(|s| s.contains(&l.id) || s.contains(&r.id));
                joined.push(BTreeSet::from([l.id, r.id]));
                sets = rest;
                sets.push(joined.into_iter().flatten().collect());
            }
            _ => panic!("a fact without a column on the left"),
        }
    }
    (values, sets.into_iter().collect())
}

fn main() {
    let c = Check::new(
        "C20",
        "model_checking",
        "all partitions of up to five elements with all pairs and triples; all families of two and three observations; all selections by block, column and count; precompiles built under the constraints of all groups of observed runs",
        &["all observations of a program counter have the same number of columns, as they are of the same instruction"],
    );
    let fail = |kind: &str, what: String| c.violation(kind, what);
    let deep = thorough();

    c.batch("partitions", || {
        let elements: Vec<u32> = vec![3, 0, 7, 64, 5, 9];
        for n in 0..=5 {
            let e = &elements[..n];
            let all = partitions(n);
            all.par_iter().for_each(|a| {
                for singles in [false, true] {
                    let mut lists = classes(a, e, singles);
                    for _ in 0..2 {
                        lists.reverse();
                        lists.iter_mut().for_each(|c| c.reverse());
                        let p: Partition<u32> = lists.clone().into_iter().collect();
                        if let Err(w) = same(&p, a, e) {
                            fail("collect", format!("{lists:?}: {w}"));
                        }
                        let back: Result<Partition<u32>, _> = serde_json::to_string(&p).and_then(|s| serde_json::from_str(&s));
                        if let Err(w) = back.map_err(|e| e.to_string()).and_then(|b| same(&b, a, e)) {
                            fail("serde", format!("{lists:?}: {w}"));
                        }
                    }
                }
                let p = partition(a, e, false);
                // every renaming of the elements
                for t in tuples(n.max(1), n).filter(|t| t.iter().collect::<BTreeSet<_>>().len() == n) {
                    let m = p.clone().map_elements(|x| e[t[e.iter().position(|y| *y == x).unwrap()]]);
                    let renamed: Vec<u32> = t.iter().map(|i| e[*i]).collect();
                    if let Err(w) = same(&m, a, &renamed) {
                        fail("map", format!("{a:?} renamed to {renamed:?}: {w}"));
                    }
                }
                for b in &all {
                    c.eval(1);
                    let q = partition(b, e, false);
                    let want = refine(a, b);
                    c.states(1);
                    c.nontrivial((want != *a && want != *b) as u64);
                    for r in [p.clone().intersected_with(q.clone()), Partition::intersect_many([q.clone(), p.clone()])] {
                        if let Err(w) = same(&r, &want, e) {
                            fail("intersection", format!("{a:?} and {b:?}: {w}"));
                        }
                    }
                    if (p == q) != (refine(a, a) == refine(b, b)) {
                        fail("equality", format!("{a:?} and {b:?}"));
                    }
                    let e2: Vec<u32> = e.iter().map(|x| x + 100).collect();
                    let both = p.clone().combine(partition(b, &e2, false));
                    let k = a.iter().max().map_or(0, |m| m + 1);
                    let l: Labels = a.iter().copied().chain(b.iter().map(|x| x + k)).collect();
                    if let Err(w) = same(&both, &l, &[e, &e2].concat()) {
                        fail("combine", format!("{a:?} and {b:?}: {w}"));
                    }
                    for d in &all {
                        c.transitions(1);
                        let r = partition(d, e, false);
                        let want = refine(&want, d);
                        let left = p.clone().intersected_with(q.clone()).intersected_with(r.clone());
                        let right = r.clone().intersected_with(q.clone().intersected_with(p.clone()));
                        let many = Partition::intersect_many([p.clone(), q.clone(), r]);
                        for x in [left, right, many] {
                            if let Err(w) = same(&x, &want, e) {
                                fail("intersection", format!("{a:?}, {b:?} and {d:?}: {w}"));
                            }
                        }
                    }
                }
            });
        }
    });

    c.batch("many partitions at once", || {
        let e: Vec<u32> = (0..4).collect();
        let all = partitions(4);
        let lengths: &[usize] = if deep { &[1, 2, 3, 63, 64, 65, 66, 127, 128, 129, 192, 193, 4096, 4097] } else { &[1, 2, 3, 63, 64, 65, 128, 129, 193] };
        tuples(all.len(), 2).collect::<Vec<_>>().par_iter().for_each(|t| {
            let (a, b) = (&all[t[0]], &all[t[1]]);
            for &n in lengths {
                let mut places = vec![0, n / 2, n - 1, n.saturating_sub(2), 63, 64];
                places.retain(|x| *x < n);
                for at in places.into_iter().collect::<BTreeSet<_>>() {
                    c.eval(1);
                    let list: Vec<_> = (0..n).map(|i| partition(if i == at { b } else { a }, &e, false)).collect();
                    let want = if n == 1 { refine(b, b) } else { refine(a, b) };
                    if let Err(w) = same(&Partition::parallel_intersect(list.into_par_iter()), &want, &e) {
                        fail("parallel intersection", format!("{n} times {a:?} with {b:?} at {at}: {w}"));
                    }
                }
            }
        });
    });

    c.batch("combinations of operations", || {
        let (e1, e2) = ([0u32, 1, 2], [10u32, 11, 12]);
        let e: Vec<u32> = [e1, e2].concat();
        let (small, large) = (partitions(3), partitions(6));
        tuples(5, 3).collect::<Vec<_>>().par_iter().for_each(|t| {
            let (p, q, r) = (&small[t[0]], &small[t[1]], &small[t[2]]);
            let pq = refine(p, q);
            let l: Labels = pq.iter().copied().chain(r.iter().map(|x| x + 3)).collect();
            for s in &large {
                c.eval(1);
                let left = partition(p, &e1, false).intersected_with(partition(q, &e1, true)).combine(partition(r, &e1, false).map_elements(|x| x + 10));
                for got in [left.clone().intersected_with(partition(s, &e, false)), partition(s, &e, false).intersected_with(left)] {
                    if let Err(w) = same(&got, &refine(&l, s), &e) {
                        fail("operations", format!("({p:?} and {q:?}) beside {r:?}, and {s:?}: {w}"));
                    }
                }
            }
        });
    });

    // ---- observations ----
    let pairs: Vec<(u32, u32)> = vec![(0, 0), (1, 1), (0, 2), (2, 3)];
    let range = |k: usize| -> Ranges { (k > 0).then(|| vec![pairs[(k - 1) % 4], pairs[(k - 1) / 4]]) };
    let one: Vec<Obs> = tuples(17, 1)
        .flat_map(|r| {
            let part = partitions(3);
            (0..=part.len()).map(move |k| (r[0], (k > 0).then(|| part[k - 1].clone()))).collect::<Vec<_>>()
        })
        .enumerate()
        .map(|(i, (r, l))| Obs { ranges: vec![(4, range(r))], blocks: vec![(4, l)], count: 1 + (i as u64 % 3) })
        .collect();
    let two: Vec<Obs> = tuples(4, 2)
        .flat_map(|r| tuples(4, 2).map(move |l| (r.clone(), l)).collect::<Vec<_>>())
        .map(|(r, l)| {
            let ranges = |k: usize| [None, Some(vec![(0, 0), (1, 1)]), Some(vec![(0, 2), (1, 1)]), Some(vec![(3, 3), (0, 1)])][k].clone();
            let labels = |k: usize| [None, Some(vec![0, 0, 0, 1]), Some(vec![0, 1, 0, 1]), Some(vec![0, 0, 1, 1])][k].clone();
            Obs { ranges: vec![(4, ranges(r[0])), (8, ranges(r[1]))], blocks: vec![(4, labels(l[0])), (1 << 32, labels(l[1]))], count: u32::MAX as u64 }
        })
        .collect();
    for (name, obs, depth) in [("observations", &one, 3), ("observations of two blocks", &two, if deep { 3 } else { 2 })] {
        c.batch(name, || {
            obs.par_iter().for_each(|a| {
                for b in obs {
                    c.eval(1);
                    let ab = merge(a.real(), b.real());
                    if let Err(w) = Obs::combined(&[a, b], &ab) {
                        fail("observations", format!("{a:?} and {b:?}: {w}"));
                    }
                    if depth < 3 {
                        continue;
                    }
                    for (k, d) in obs.iter().enumerate() {
                        c.transitions(1);
                        // in the other grouping once in a while
                        let all = if k % 2 == 0 { merge(merge(a.real(), b.real()), d.real()) } else { merge(a.real(), merge(b.real(), d.real())) };
                        if let Err(w) = Obs::combined(&[a, b, d], &all) {
                            fail("observations", format!("{a:?}, {b:?} and {d:?}: {w}"));
                        }
                    }
                }
            });
        });
    }

    // ---- selection ----
    let nop = ins(Add, 1, 1, 1, false);
    let basic: Vec<BasicBlock<Ins>> = [(4u64, 1), (4, 2), (8, 1), (12, 1), (12, 2)].iter().map(|(pc, n)| BasicBlock { start_pc: *pc, instructions: vec![nop; *n] }).collect();
    let mut supers: Vec<Vec<BasicBlock<Ins>>> = vec![];
    for k in 1..=3 {
        for t in tuples(basic.len(), k) {
            // a block is the same wherever it starts at the same place
            let b: Vec<_> = t.iter().map(|i| basic[*i].clone()).collect();
            let by_pc: BTreeMap<u64, usize> = b.iter().map(|b| (b.start_pc, b.instructions.len())).collect();
            if b.iter().all(|b| by_pc[&b.start_pc] == b.instructions.len()) && b.iter().map(|b| b.instructions.len()).sum::<usize>() <= if deep { 4 } else { 3 } {
                supers.push(b);
            }
        }
    }
    c.batch("selection", || {
        let range_sets: Vec<Vec<(u32, Ranges)>> = tuples(4, 4)
            .map(|t| {
                let r = |k: usize| [None, Some(vec![(0, 0), (1, 1)]), Some(vec![(0, 2), (3, 3)]), Some(vec![(5, 5), (0, 1)])][k].clone();
                [4, 8, 12, 16].into_iter().zip(t).map(|(pc, k)| (pc, r(k))).collect()
            })
            .collect();
        supers.par_iter().for_each(|blocks| {
            let sb = SuperBlock::from(blocks.clone());
            let pcs: Vec<u64> = sb.pcs().collect();
            let n = pcs.len() * WIDTH;
            let id = |i: usize, col: usize| (10 * i + col) as u64;
            let starts: BTreeMap<u64, usize> = blocks.iter().map(|b| (b.start_pc, b.instructions.len())).collect();
            let part: Vec<Vec<(u64, Option<Labels>)>> = {
                let mut out = vec![vec![(20u64, Some(vec![0, 0]))]];
                for (pc, len) in &starts {
                    let ls = partitions(len * WIDTH);
                    let step = if ls.len() > 4 { 5 } else { 1 };
                    out = out.into_iter().flat_map(|o| std::iter::once(None).chain(ls.iter().step_by(step).cloned().map(Some)).map(move |l| [o.clone(), vec![(*pc, l)]].concat()).collect::<Vec<_>>()).collect();
                }
                out
            };
            // combining every choice of ranges with some choice of partitions and vice versa
            let (nr, np) = (range_sets.len(), part.len());
            for k in 0..nr.max(np) {
                let o = Obs { ranges: range_sets[k % nr].clone(), blocks: part[k % np].clone(), count: 1 };
                let real = o.real();
                let known: BTreeMap<u64, &Labels> = o.blocks.iter().filter_map(|(pc, l)| Some((*pc, l.as_ref()?))).collect();
                let ranges: BTreeMap<u64, &Vec<(u32, u32)>> = o.ranges.iter().filter_map(|(pc, r)| Some((*pc as u64, r.as_ref()?))).collect();
                // a selection of cells
                let expected = |keep: u64| -> Facts {
                    let kept = |i: usize, col: usize| keep >> (i * WIDTH + col) & 1 == 1;
                    let mut values = BTreeSet::new();
                    for (i, pc) in pcs.iter().enumerate() {
                        for (col, r) in ranges.get(pc).into_iter().flat_map(|r| r.iter().enumerate()) {
                            if r.0 == r.1 && (0..pcs.len()).filter(|j| pcs[*j] == *pc).all(|j| kept(j, col)) {
                                values.insert((id(i, col), r.0));
                            }
                        }
                    }
                    let mut sets = BTreeSet::new();
                    let mut i = 0;
                    for b in blocks {
                        if let Some(l) = known.get(&b.start_pc) {
                            let cells: Vec<(usize, usize)> = (0..l.len()).map(|x| (i + x / WIDTH, x % WIDTH)).collect();
                            for s in classes(l, &cells, false) {
                                let s: BTreeSet<u64> = s.into_iter().filter(|(i, col)| kept(*i, *col)).map(|(i, col)| id(i, col)).collect();
                                if s.len() > 1 {
                                    sets.insert(s);
                                }
                            }
                        }
                        i += b.instructions.len();
                    }
                    (values, sets)
                };
                let cell_bits: BTreeMap<BlockCell, u64> = (0..n).map(|x| (BlockCell::new(x / WIDTH, x % WIDTH), 1 << x)).collect();
                let all = (1u64 << n) - 1;
                let check = |first: u64, second: Option<u64>| {
                    c.eval(1);
                    let mut e = real.for_block(&sb);
                    if first != all {
                        e = e.filtered(|cell| first & cell_bits[cell] != 0);
                    }
                    if let Some(s) = second {
                        e = e.filtered(|cell| s & cell_bits[cell] != 0);
                    }
                    let (got, want) = (facts(&sb, e), expected(first & second.unwrap_or(all)));
                    if got != want {
                        fail("selection", format!("{} of {o:?} restricted to {first:b} {second:?}: {got:?} instead of {want:?}", show(blocks)));
                    }
                };
                check(all, None);
                for s in 0..all {
                    check(s, None);
                }
                if k % 16 == 0 {
                    for s in 0..=all {
                        for t in 0..=all {
                            check(s, Some(t));
                        }
                    }
                }
            }
        });
    });

    c.batch("counts", || {
        // no other thread is reading the environment here
        for threshold in [None, Some(0u64), Some(1), Some(2), Some(100), Some(101)] {
            match threshold {
                None => std::env::remove_var("POWDR_OP_EXECUTION_COUNT_THRESHOLD"),
                Some(t) => std::env::set_var("POWDR_OP_EXECUTION_COUNT_THRESHOLD", t.to_string()),
            }
            let t = threshold.unwrap_or(100);
            let counts = [None, Some(0u64), Some(1), Some(2), Some(99), Some(100), Some(101), Some(1 << 40)];
            for k in tuples(counts.len(), 2) {
                c.eval(1);
                let mut e = Obs { ranges: vec![(4, range(2)), (8, range(7))], blocks: vec![(4, Some(vec![0, 0, 1])), (8, Some(vec![0, 1, 1]))], count: 0 }.real();
                e.pc_counts = [4, 8].into_iter().zip(&k).filter_map(|(pc, i)| Some((pc, counts[*i]?))).collect();
                let before = e.pc_counts.clone();
                let keep: Vec<u64> = [4, 8].into_iter().zip(&k).filter(|(_, i)| counts[**i].unwrap_or(0) >= t).map(|(pc, _)| pc).collect();
                let e = e.apply_pc_threshold();
                let right = e.column_ranges_by_pc.keys().map(|pc| *pc as u64).eq(keep.iter().copied())
                    && e.equivalence_classes_by_block.keys().copied().eq(keep.iter().copied())
                    && e.column_ranges_by_pc.iter().all(|(pc, r)| *r == range(if *pc == 4 { 2 } else { 7 }).unwrap())
                    && e.equivalence_classes_by_block.iter().all(|(pc, p)| p.to_classes().len() == 1 && p.to_classes()[0].contains(&BlockCell::new(0, 1)) && p.to_classes()[0].contains(&if *pc == 4 { BlockCell::new(0, 0) } else { BlockCell::new(1, 0) }))
                    && e.pc_counts == before;
                if !right {
                    fail("threshold", format!("executed {:?} times with a threshold of {threshold:?}: {e:?}", before));
                }
            }
        }
        std::env::remove_var("POWDR_OP_EXECUTION_COUNT_THRESHOLD");
    });

    // ---- precompiles ----
    let mut alphabet = vec![
        ins(Add, 1, 1, 1, false),
        ins(Add, 1, 1, 2, true),
        ins(Store, 1, 2, 0, false),
        ins(Load, 1, 2, 0, false),
        ins(Beq, 1, 2, 8, false),
        ins(IsZero, 1, 1, 0, false),
        ins(Sub, 2, 1, 1, true),
        ins(Xor, 1, 2, 2, false),
        ins(Lt, 1, 1, 2, true),
        ins(Bne, 1, 2, 12, false),
    ];
    if deep {
        alphabet.extend([ins(Mul, 1, 2, 2, true), ins(Jal, 1, 4, 2, false), ins(Sub, 1, 2, 1, true), ins(Load, 0, 2, 1, false), ins(Store, 2, 2, 1, false), ins(Add, 1, 1, 3, false)]);
    }
    let blocks: Vec<Block> = (1..=2).flat_map(|n| tuples(alphabet.len(), n).collect::<Vec<_>>()).flat_map(|t| paths(&t.iter().map(|i| alphabet[*i]).collect::<Vec<_>>())).collect();
    for restricted in [false, true] {
        if restricted {
            std::env::set_var("POWDR_RESTRICTED_OPTIMISTIC_PRECOMPILES", "1");
        }
        c.batch(if restricted { "precompiles, restricted" } else { "precompiles" }, || {
            blocks.par_iter().for_each(|b| {
                let ctx = Ctx::new(&c, (3, 2));
                let runs = ctx.runs(b);
                let good: Vec<&Run> = runs.iter().filter(|r| r.1.is_ok()).collect();
                let cell = |s: &State, a: u32| s.cells.get(&(1, a)).map_or(0, |v| v.0);
                let groups: Vec<(&str, Vec<&Run>)> = vec![
                    ("the first run", good.iter().take(1).copied().collect()),
                    ("the last two runs", good.iter().rev().take(2).copied().collect()),
                    ("r1 = 2", good.iter().filter(|r| cell(&r.0, 1) == 2).copied().collect()),
                    ("r1 = r2", good.iter().filter(|r| cell(&r.0, 1) == cell(&r.0, 2)).copied().collect()),
                    ("all", good.clone()),
                ];
                for (name, group) in groups {
                    if group.is_empty() || c.violated() || (restricted && b.len() + b[0].instructions.len() > 2 && name == "all") {
                        continue;
                    }
                    // every run is an observation
                    let mut e: Option<EmpiricalConstraints> = None;
                    for r in &group {
                        let rows = &r.1.as_ref().unwrap().0;
                        let mut o = EmpiricalConstraints::default();
                        let pcs = SuperBlock::from(b.clone()).pcs().collect::<Vec<_>>();
                        for (pc, row) in pcs.iter().zip(rows) {
                            let seen: Vec<(u32, u32)> = row.iter().map(|v| (*v, *v)).collect();
                            o.combine_with(EmpiricalConstraints { column_ranges_by_pc: [(*pc as u32, seen)].into(), pc_counts: [(*pc as u32, 1)].into(), ..Default::default() });
                        }
                        let mut i = 0;
                        for bb in b {
                            let mut by_value: BTreeMap<u32, Vec<BlockCell>> = BTreeMap::new();
                            for (k, row) in rows[i..i + bb.instructions.len()].iter().enumerate() {
                                for (col, v) in row.iter().enumerate() {
                                    by_value.entry(*v).or_default().push(BlockCell::new(k, col));
                                }
                            }
                            o.combine_with(EmpiricalConstraints { equivalence_classes_by_block: [(bb.start_pc, by_value.into_values().collect())].into(), ..Default::default() });
                            i += bb.instructions.len();
                        }
                        e = Some(match e {
                            None => o,
                            Some(e) => merge(e, o),
                        });
                    }
                    let observed: Vec<Run> = group.into_iter().cloned().collect();
                    ctx.check_with(b, &e.unwrap(), &observed, &format!(", having observed {name}{}", if restricted { ", restricted" } else { "" }));
                }
            });
        });
    }
    c.sample(json!({"block": "Add 1 1 2 (register); Beq 1 2 8", "observed": "all runs with r1 = r2", "compared with": "an interpreter from all those states, and all accepted rows"}));
    c.finish()
}
