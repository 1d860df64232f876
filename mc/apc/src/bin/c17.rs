//! C17: profile-guided selection respects budget and picks by benefit.
//!
//! The real selection is run through its public entry points on a machine whose
//! circuits are as small as possible; costs and values are prescribed. All small
//! executions, candidate lists, costs, values, budgets and limits are explored and the
//! outcome is compared with every outcome the greedy rule admits.
use mc_apc::vm::bus_map;
use mc_apc::*;
use mc_core::rayon::prelude::*;
use mc_core::serde_json::json;
use mc_core::*;
use powdr_autoprecompiles::adapter::{Adapter, AdapterApc, AdapterApcWithStats, AdapterVmConfig, PgoAdapter};
use powdr_autoprecompiles::blocks::{BasicBlock, BlockAndStats, ExecutionBasicBlockRun, ExecutionBlocks, Instruction, PcStep, Program, SuperBlock};
use powdr_autoprecompiles::constraint_optimizer::IsBusStateful;
use powdr_autoprecompiles::empirical_constraints::EmpiricalConstraints;
use powdr_autoprecompiles::evaluation::AirStats;
use powdr_autoprecompiles::execution_profile::ExecutionProfile;
use powdr_autoprecompiles::pgo::{ApcCandidate, CellPgo, InstructionPgo, NonePgo};
use powdr_autoprecompiles::expression::{AlgebraicExpression, AlgebraicReference};
use powdr_autoprecompiles::range_constraint_optimizer::{MakeRangeConstraintsError, RangeConstraintHandler, RangeConstraints};
use powdr_autoprecompiles::symbolic_machine::{SymbolicBusInteraction, SymbolicConstraint, SymbolicMachine};
use powdr_autoprecompiles::{DegreeBound, InstructionHandler, PowdrConfig, VmConfig};
use powdr_constraint_solver::constraint_system::{BusInteraction, BusInteractionHandler};
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_number::BabyBearField as B;
use powdr_openvm_bus_interaction_handler::memory_bus_interaction::OpenVmMemoryBusInteraction;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Display;
use std::hash::Hash;
use std::sync::{Arc, RwLock};

type E = AlgebraicExpression<B>;

/// `bad` instructions have a circuit that cannot be satisfied.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Nop {
    bad: bool,
}
impl Display for Nop {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl PcStep for Nop {
    fn pc_step() -> u32 {
        4
    }
}
impl Instruction<B> for Nop {
    fn pc_lookup_row(&self, _: u64) -> Vec<B> {
        vec![]
    }
}
struct Handler([SymbolicMachine<B>; 2]);
impl Default for Handler {
    fn default() -> Self {
        let make = |bad: bool| {
            let ts = E::Reference(AlgebraicReference { name: Arc::new("ts".into()), id: 0 });
            let n = |k: u64| E::Number(B::from(k));
            let constraints = if bad { vec![SymbolicConstraint { expr: n(1) }] } else { vec![] };
            let bus = |id: u32, mult, args| SymbolicBusInteraction { id: id as u64, mult, args };
            SymbolicMachine {
                constraints,
                bus_interactions: vec![
                    bus(EXEC, -n(1), vec![ts.clone()]),
                    bus(PC, n(1), vec![]),
                    bus(EXEC, n(1), vec![ts + n(1)]),
                ],
                derived_columns: vec![],
            }
        };
        Handler([make(false), make(true)])
    }
}
impl InstructionHandler for Handler {
    type Field = B;
    type Instruction = Nop;
    type AirId = bool;
    fn degree_bound(&self) -> DegreeBound {
        DegreeBound { identities: 3, bus_interactions: 2 }
    }
    fn get_instruction_air_and_id(&self, i: &Nop) -> (bool, &SymbolicMachine<B>) {
        (i.bad, &self.0[i.bad as usize])
    }
    fn get_instruction_air_stats(&self, i: &Nop) -> AirStats {
        AirStats::new(&self.0[i.bad as usize])
    }
}
#[derive(Clone)]
struct NoBuses;
impl BusInteractionHandler<B> for NoBuses {
    fn handle_bus_interaction(&self, b: BusInteraction<RangeConstraint<B>>) -> BusInteraction<RangeConstraint<B>> {
        b
    }
}
impl IsBusStateful<B> for NoBuses {
    fn is_stateful(&self, id: B) -> bool {
        id == B::from(EXEC as u64)
    }
}
impl RangeConstraintHandler<B> for NoBuses {
    fn pure_range_constraints<V: Ord + Clone + Eq + Display + Hash>(&self, _: &BusInteraction<GroupedExpression<B, V>>) -> Option<RangeConstraints<B, V>> {
        None
    }
    fn batch_make_range_constraints<V: Ord + Clone + Eq + Display + Hash>(&self, r: RangeConstraints<B, V>) -> Result<Vec<BusInteraction<GroupedExpression<B, V>>>, MakeRangeConstraintsError> {
        assert!(r.is_empty());
        Ok(vec![])
    }
}
#[derive(Clone)]
struct Sel;
struct NoState;
impl powdr_autoprecompiles::execution::ExecutionState for NoState {
    type RegisterAddress = u32;
    type Value = u64;
    fn pc(&self) -> u64 {
        0
    }
    fn value_limb(_: u64, _: usize) -> u64 {
        0
    }
    fn reg(&self, _: &u32) -> u64 {
        0
    }
    fn global_clk(&self) -> usize {
        0
    }
}
struct NoCode;
impl Program<Nop> for NoCode {
    fn base_pc(&self) -> u64 {
        0
    }
    fn instructions(&self) -> Box<dyn Iterator<Item = Nop> + '_> {
        Box::new(std::iter::empty())
    }
    fn length(&self) -> u32 {
        0
    }
}
impl Adapter for Sel {
    type Field = B;
    type PowdrField = B;
    type InstructionHandler = Handler;
    type BusInteractionHandler = NoBuses;
    type Program = NoCode;
    type Instruction = Nop;
    type MemoryBusInteraction<V: Ord + Clone + Eq + Display + Hash> = OpenVmMemoryBusInteraction<B, V>;
    type CustomBusTypes = String;
    type ApcStats = ();
    type AirId = bool;
    type ExecutionState = NoState;
    fn into_field(e: B) -> B {
        e
    }
    fn from_field(e: B) -> B {
        e
    }
    fn apc_stats(_: Arc<AdapterApc<Self>>, _: &Handler) {}
    fn is_branching(_: &Nop) -> bool {
        false
    }
    fn is_allowed(_: &Nop) -> bool {
        true
    }
}

/// Cost and value of each candidate by the high bits of its start, then its sequence.
static TABLE: RwLock<Vec<BTreeMap<Vec<usize>, (usize, usize)>>> = RwLock::new(vec![]);
const SHIFT: u64 = 10;
fn start(config: usize, block: usize) -> u64 {
    ((config as u64 + 1) << SHIFT) + 0x40 * block as u64
}
fn sequence(pcs: &[u64]) -> Vec<usize> {
    pcs.iter().map(|p| (p & ((1 << SHIFT) - 1)) as usize / 0x40).collect()
}
struct Cand {
    inner: AdapterApcWithStats<Sel>,
    cost: usize,
    value: usize,
}
impl ApcCandidate<Sel> for Cand {
    fn create(inner: AdapterApcWithStats<Sel>) -> Self {
        let pcs = inner.apc().block.start_pcs();
        let (cost, value) = TABLE.read().unwrap()[(pcs[0] >> SHIFT) as usize - 1][&sequence(&pcs)];
        Cand { inner, cost, value }
    }
    fn inner(&self) -> &AdapterApcWithStats<Sel> {
        &self.inner
    }
    fn into_inner(self) -> AdapterApcWithStats<Sel> {
        self.inner
    }
    fn cost_before_opt(&self) -> usize {
        1000
    }
    fn cost_after_opt(&self) -> usize {
        self.cost
    }
    fn value_per_use(&self) -> usize {
        self.value
    }
}

type Seq = Vec<usize>;
/// Runs of blocks; positions already covered are None.
type Exec = Vec<(Vec<Option<usize>>, u32)>;

/// Places `s` as often as possible, leftmost first.
fn place(e: &Exec, s: &Seq) -> (u32, Exec) {
    let mut total = 0;
    let mut out = vec![];
    for (run, times) in e {
        let mut run = run.clone();
        let mut i = 0;
        while i + s.len() <= run.len() {
            if (0..s.len()).all(|k| run[i + k] == Some(s[k])) {
                run[i..i + s.len()].fill(None);
                total += times;
                i += s.len();
            } else {
                i += 1;
            }
        }
        out.push((run, *times));
    }
    (total, out)
}

#[derive(Clone, Debug)]
struct Case {
    runs: Vec<(Seq, u32)>,
    /// sequence, cost, value per use, whether a circuit exists
    cands: Vec<(Seq, usize, usize)>,
    budget: Option<usize>,
    take: u64,
    skip: u64,
}

/// Whether the greedy rule allows `got` (after the first `skip` are dropped).
fn allowed(k: &Case, chosen: &mut Vec<usize>, cost: usize, exec: &Exec, got: &[Seq]) -> bool {
    let skip = k.skip as usize;
    let most = (k.take + k.skip) as usize;
    let budget = k.budget.unwrap_or(usize::MAX);
    let mut best: Vec<(usize, usize, usize, Exec)> = vec![];
    if chosen.len() < most {
        for (i, (s, c, v)) in k.cands.iter().enumerate() {
            if chosen.contains(&i) || cost + c > budget {
                continue;
            }
            let (count, rest) = place(exec, s);
            if count == 0 {
                continue;
            }
            let value = count as usize * v;
            let order = best.first().map(|(_, bv, bc, _)| (value * bc).cmp(&(bv * c)));
            match order {
                Some(std::cmp::Ordering::Less) => {}
                Some(std::cmp::Ordering::Equal) => best.push((i, value, *c, rest)),
                _ => best = vec![(i, value, *c, rest)],
            }
        }
    }
    if best.is_empty() {
        return got.len() == chosen.len().saturating_sub(skip);
    }
    best.into_iter().any(|(i, _, c, rest)| {
        let at = chosen.len();
        if at >= skip && got.get(at - skip) != Some(&k.cands[i].0) {
            return false;
        }
        chosen.push(i);
        let r = allowed(k, chosen, cost + c, &rest, got);
        chosen.pop();
        r
    })
}

fn basic(start_pc: u64, len: usize, bad: bool) -> BasicBlock<Nop> {
    BasicBlock { start_pc, instructions: (0..len).map(|k| Nop { bad: bad && k + 1 == len }).collect() }
}
/// Block 3 has no circuit.
const BAD: usize = 3;

fn config(k: &Case) -> PowdrConfig {
    PowdrConfig::new(k.take, k.skip, DegreeBound { identities: 3, bus_interactions: 2 })
}
fn vmc(h: &Handler) -> AdapterVmConfig<'_, Sel> {
    VmConfig { instruction_handler: h, bus_interaction_handler: NoBuses, bus_map: bus_map() }
}
fn no_profile() -> ExecutionProfile {
    ExecutionProfile { pc_count: Default::default(), pc_list: vec![] }
}
fn execution(runs: &[(Seq, u32)]) -> Exec {
    runs.iter().map(|(r, k)| (r.iter().map(|b| Some(*b)).collect(), *k)).collect()
}

fn run_cell(c: &Check, h: &Handler, id: usize, k: &Case) {
    c.eval(1);
    let blocks = k
        .cands
        .iter()
        .map(|(s, _, _)| BlockAndStats {
            block: SuperBlock::from(s.iter().map(|b| basic(start(id, *b), 1, *b == BAD)).collect::<Vec<_>>()),
            count: place(&execution(&k.runs), s).0,
        })
        .collect();
    let execution_bb_runs = k.runs.iter().map(|(r, n)| (ExecutionBasicBlockRun(r.iter().map(|b| start(id, *b)).collect()), *n)).collect();
    let pgo = CellPgo::<Sel, Cand>::with_pgo_data_and_max_columns(no_profile(), k.budget);
    let got = quiet_catch(|| {
        pgo.create_apcs_with_pgo(ExecutionBlocks { blocks, execution_bb_runs }, &config(k), vmc(h), BTreeMap::new(), EmpiricalConstraints::default())
            .iter()
            .map(|a| sequence(&a.apc().block.start_pcs()))
            .collect::<Vec<_>>()
    });
    judge(c, k, got);
}

fn judge(c: &Check, k: &Case, got: Result<Vec<Seq>, String>) {
    match got {
        Err(e) => c.violation("panic", format!("{k:?}: {e}")),
        Ok(got) => {
            let mut usable = k.clone();
            usable.cands.retain(|(s, _, _)| !s.contains(&BAD));
            if got.len() > 1 {
                c.nontrivial(1);
            }
            let ok = if k.take == 0 { got.is_empty() } else { allowed(&usable, &mut vec![], 0, &execution(&k.runs), &got) };
            if !ok {
                c.violation("selection", format!("{k:?}: selected {got:?}"));
            }
        }
    }
}

fn main() {
    let c = Check::new(
        "C17",
        "model_checking",
        "all executions, candidate lists, costs, values, budgets and limits up to a bound",
        &["costs and values of candidates are at least one; among candidates with equal benefit per cost any may come first"],
    );
    let deep = thorough();
    let h = Handler::default();
    cell(&c, &h, deep);
    lists(&c, &h, deep);
    whole(&c, &h, deep);
    c.sample(json!({"execution": "a b a a b", "candidates": "ab (cost 2, value 3), a (cost 1, value 1)", "budget": 3}));
    c.finish()
}

type Limits = (Option<usize>, u64, u64);

/// Selection among prescribed candidates.
fn cell(c: &Check, h: &Handler, deep: bool) {
    let mut cases: Vec<Case> = vec![];
    // prices: (cost, value per use)
    let prices: &[(usize, usize)] = &[(1, 1), (1, 4), (2, 3), (3, 2), (2, 2), (3, 4)];
    let limits: &[Limits] = &[(None, 3, 0), (Some(3), 3, 0), (Some(4), 2, 0), (None, 1, 1), (Some(2), 1, 1), (Some(5), 1, 2), (None, 1, 0), (Some(0), 2, 0), (None, 0, 2)];
    let mut runs: Vec<Vec<(Seq, u32)>> = vec![];
    for n in 1..=if deep { 6 } else { 5 } {
        for r in tuples(2, n) {
            runs.push(vec![(r.clone(), 1)]);
            if n == 3 || (n < 3 && deep) {
                for (s, k) in [(vec![0, 1], 2), (vec![1, 1, 1], 1), (vec![0], 3)] {
                    if s != r {
                        runs.push(vec![(r.clone(), 1), (s, k)]);
                    }
                }
            }
            if n == 4 && r.contains(&1) {
                runs.push(vec![(r.clone(), 2), (vec![1, 1], 1)]);
            }
            if n == 3 {
                runs.push(vec![(r.iter().map(|b| if *b == 0 { 0 } else { BAD }).collect(), 2)]);
            }
        }
    }
    for r in &runs {
        let blocks = if r[0].0.contains(&BAD) { vec![0, BAD] } else { vec![0, 1] };
        let mut seqs: Vec<Seq> = vec![];
        for len in 1..=3 {
            for s in tuples(2, len) {
                let s: Seq = s.iter().map(|k| blocks[*k]).collect();
                if place(&execution(r), &s).0 > 0 {
                    seqs.push(s);
                }
            }
        }
        // three candidates over runs of four blocks only
        for n in 1..=if r[0].0.len() > 4 && !deep { 2 } else { 3 } {
            let few = if deep {
                6
            } else if n == 3 {
                3
            } else {
                4
            };
            for set in subsets(seqs.len(), n).into_iter().filter(|s| s.len() == n) {
                for (x, p) in tuples(few, n).enumerate() {
                    let mut cands: Vec<_> = set.iter().zip(&p).map(|(s, p)| (seqs[*s].clone(), prices[*p].0, prices[*p].1)).collect();
                    // the order of the list matters only among equals
                    if x % 2 == 1 {
                        cands.reverse();
                    }
                    let some = match n {
                        1 => limits,
                        2 => &limits[..if deep { 9 } else { 4 }],
                        _ => &limits[..if deep { 6 } else { 2 }],
                    };
                    for (budget, take, skip) in some {
                        cases.push(Case { runs: r.clone(), cands: cands.clone(), budget: *budget, take: *take, skip: *skip });
                    }
                }
            }
        }
    }
    c.count("selection_cases", cases.len() as u64);
    *TABLE.write().unwrap() = cases.iter().map(|k| k.cands.iter().map(|(s, c, v)| (s.clone(), (*c, *v))).collect()).collect();
    c.batch("cell", || {
        cases.par_iter().enumerate().for_each(|(id, k)| {
            if !c.violated() {
                c.states(1);
                run_cell(c, h, id, k);
            }
        });
    });
}

/// The modes that rank by instructions.
fn lists(c: &Check, h: &Handler, deep: bool) {
    // (length, count)
    let kinds: &[(usize, u32)] = &[(1, 1), (1, 4), (2, 1), (2, 2), (3, 0), (4, 1)];
    for n in 0..=if deep { 5 } else { 4 } {
        c.batch(&format!("lists of {n}"), || {
            tuples(kinds.len(), n).collect::<Vec<_>>().par_iter().for_each(|list| {
                c.states(1);
                for (take, skip) in [(0, 0), (1, 0), (2, 1), (1, 3), (9, 0), (9, 9), (3, 2)] {
                    let k = Case { runs: vec![], cands: vec![], budget: None, take, skip };
                    let blocks = |count: bool| {
                        list.iter()
                            .enumerate()
                            .map(|(i, k)| BlockAndStats { block: SuperBlock::from(basic(0x40 * (1 + i as u64), kinds[*k].0, false)), count: if count { kinds[*k].1 } else { 0 } })
                            .collect::<Vec<_>>()
                    };
                    for by_count in [false, true] {
                        c.eval(1);
                        let e = ExecutionBlocks { blocks: blocks(by_count), execution_bb_runs: vec![] };
                        let text = || format!("lengths and counts {:?}, take {take} skip {skip}, with counts: {by_count}", list.iter().map(|k| kinds[*k]).collect::<Vec<_>>());
                        let got = quiet_catch(|| {
                            let r = if by_count {
                                InstructionPgo::<Sel>::with_pgo_data(no_profile()).create_apcs_with_pgo(e, &config(&k), vmc(h), BTreeMap::new(), EmpiricalConstraints::default())
                            } else {
                                NonePgo::<Sel>::default().create_apcs_with_pgo(e, &config(&k), vmc(h), BTreeMap::new(), EmpiricalConstraints::default())
                            };
                            r.iter().map(|a| a.apc().block.start_pcs()[0] as usize / 0x40 - 1).collect::<Vec<_>>()
                        });
                        let got = match got {
                            Ok(g) => g,
                            Err(e) => {
                                c.violation("panic", format!("{}: {e}", text()));
                                continue;
                            }
                        };
                        let key = |i: usize| kinds[list[i]].0 as u32 * if by_count { kinds[list[i]].1 } else { 1 };
                        let mut keys: Vec<u32> = (0..n).map(key).collect();
                        keys.sort_by(|a, b| b.cmp(a));
                        let want: Vec<u32> = keys.into_iter().skip(skip as usize).take(take as usize).collect();
                        let distinct: std::collections::BTreeSet<_> = got.iter().collect();
                        if got.iter().map(|i| key(*i)).collect::<Vec<_>>() != want || distinct.len() != got.len() {
                            c.violation("ranking", format!("{}: selected {got:?}", text()));
                        }
                        if want.len() > 1 {
                            c.nontrivial(1);
                        }
                    }
                }
            });
        });
    }
}

/// From the list of executed program counters to the selection.
fn whole(c: &Check, h: &Handler, deep: bool) {
    // block 2 has one instruction only, block 3 has no circuit
    let lens = [2usize, 3, 1, 2];
    let mut cases: Vec<(Seq, u8, u32, Case)> = vec![];
    for n in 1..=if deep { 6 } else { 5 } {
        for exec in tuples(4, n) {
            if n >= 5 && !deep && exec.iter().filter(|b| **b >= 2).count() > 1 {
                continue;
            }
            let runs: Vec<(Seq, u32)> = exec.split(|b| *b == 2).filter(|r| !r.is_empty()).map(|r| (r.to_vec(), 1)).collect();
            for (max_bb, most, (budget, take, skip)) in [(1u8, u32::MAX, (None, 2, 0)), (2, 4, (Some(5), 2, 0)), (3, u32::MAX, (None, 1, 1)), (3, 6, (Some(6), 3, 0))] {
                let mut cands: BTreeMap<Seq, (usize, usize)> = BTreeMap::new();
                for (r, _) in &runs {
                    for len in 1..=(max_bb as usize).min(r.len()) {
                        for w in r.windows(len) {
                            let size: usize = w.iter().map(|b| lens[*b]).sum();
                            if size <= most as usize {
                                // longer candidates cost a little less than their parts
                                cands.insert(w.to_vec(), (size + 1 - (len > 1) as usize, 2 * size - 1));
                            }
                        }
                    }
                }
                let cands = cands.into_iter().map(|(s, (c, v))| (s, c, v)).collect();
                cases.push((exec.clone(), max_bb, most, Case { runs: runs.clone(), cands, budget, take, skip }));
            }
        }
    }
    c.count("whole_cases", cases.len() as u64);
    *TABLE.write().unwrap() = cases.iter().map(|(_, _, _, k)| k.cands.iter().map(|(s, c, v)| (s.clone(), (*c, *v))).collect()).collect();
    c.batch("whole", || {
        cases.par_iter().enumerate().for_each(|(id, (exec, max_bb, most, k))| {
            if c.violated() {
                return;
            }
            c.states(1);
            c.eval(1);
            let blocks: Vec<_> = (0..4).map(|b| basic(start(id, b), lens[b], b == BAD)).collect();
            let pc_list: Vec<u64> = exec.iter().flat_map(|b| blocks[*b].pcs().collect::<Vec<_>>()).collect();
            let mut pc_count = std::collections::HashMap::new();
            for p in &pc_list {
                *pc_count.entry(*p).or_insert(0) += 1;
            }
            let cfg = config(k).with_superblocks(*max_bb, Some(*most), None);
            let pgo = CellPgo::<Sel, Cand>::with_pgo_data_and_max_columns(ExecutionProfile { pc_count, pc_list }, k.budget);
            let got = quiet_catch(|| {
                pgo.filter_blocks_and_create_apcs_with_pgo(blocks, &cfg, vmc(h), BTreeMap::new(), EmpiricalConstraints::default())
                    .iter()
                    .map(|a| sequence(&a.apc().block.start_pcs()))
                    .collect::<Vec<_>>()
            });
            judge(c, k, got);
        });
    });
    // without a profile every block of more than one instruction is a candidate
    c.batch("without a profile", || {
        for n in 0..=4 {
            for list in tuples(3, n) {
                for (take, skip) in [(0, 0), (1, 0), (2, 1), (9, 0)] {
                    c.eval(1);
                    let k = Case { runs: vec![], cands: vec![], budget: None, take, skip };
                    let blocks = list.iter().enumerate().map(|(i, l)| basic(0x40 * (1 + i as u64), l + 1, false)).collect();
                    let got = quiet_catch(|| {
                        NonePgo::<Sel>::default()
                            .filter_blocks_and_create_apcs_with_pgo(blocks, &config(&k), vmc(h), BTreeMap::new(), EmpiricalConstraints::default())
                            .iter()
                            .map(|a| a.apc().block.instructions().count())
                            .collect::<Vec<_>>()
                    });
                    let mut want: Vec<usize> = list.iter().map(|l| l + 1).filter(|l| *l > 1).collect();
                    want.sort_by(|a, b| b.cmp(a));
                    let want: Vec<usize> = want.into_iter().skip(skip as usize).take(take as usize).collect();
                    if got.as_ref() != Ok(&want) {
                        c.violation("without profile", format!("blocks of {list:?} plus one instructions, take {take} skip {skip}: {got:?}"));
                    }
                }
            }
        }
    });
}
