//! C18: precompile calls recorded at run time never overlap or break conditions.
//!
//! All schedules of insertions, steps, aborts and extractions for all small sets of
//! precompiles, replayed on the real tracker next to a plain list of what happened.
//! Then whole programs of the toy machine with all their blocks as candidates.
use mc_apc::vm::Op::*;
use mc_apc::vm::*;
use mc_core::rayon::prelude::*;
use mc_core::serde_json::json;
use mc_core::*;
use powdr_autoprecompiles::blocks::{collect_basic_blocks, detect_superblocks, Program, SuperBlock};
use powdr_autoprecompiles::empirical_constraints::EmpiricalConstraints;
use powdr_autoprecompiles::execution::*;
use powdr_autoprecompiles::export::{ExportLevel, ExportOptions};
use powdr_autoprecompiles::{build, DegreeBound, PowdrConfig};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct St {
    pc: u64,
    clk: usize,
}
impl ExecutionState for St {
    type RegisterAddress = u32;
    type Value = u64;
    fn pc(&self) -> u64 {
        self.pc
    }
    fn value_limb(value: u64, limb: usize) -> u64 {
        value >> (8 * limb) & 0xff
    }
    fn reg(&self, _: &u32) -> u64 {
        unreachable!()
    }
    fn global_clk(&self) -> usize {
        self.clk
    }
}

/// A condition on the program counters seen, by step.
#[derive(Clone, Copy, Debug)]
enum Cond {
    None,
    /// At the step, the program counter is the value.
    Is(usize, u64),
    Same(usize, usize),
}
impl Cond {
    /// Known to fail once these program counters have been seen.
    fn fails(&self, pcs: &[u64]) -> bool {
        match *self {
            Cond::None => false,
            Cond::Is(k, v) => pcs.get(k).is_some_and(|p| *p != v),
            Cond::Same(a, b) => pcs.get(a.max(b)).is_some() && pcs[a] != pcs[b],
        }
    }
    fn real(&self) -> OptimisticConstraints<u32, u64> {
        let pc = |instr_idx| OptimisticExpression::Literal(OptimisticLiteral { instr_idx, val: LocalOptimisticLiteral::Pc });
        OptimisticConstraints::from_constraints(match *self {
            Cond::None => vec![],
            Cond::Is(k, v) => vec![OptimisticConstraint { left: pc(k), right: OptimisticExpression::Number(v) }],
            Cond::Same(a, b) => vec![OptimisticConstraint { left: pc(a), right: pc(b) }],
        })
    }
}
#[derive(Clone, Debug)]
struct A {
    len: usize,
    priority: usize,
    cond: Cond,
}
struct Real<'a>(&'a A, OptimisticConstraints<u32, u64>);
impl Apc<St> for Real<'_> {
    fn optimistic_constraints(&self) -> &OptimisticConstraints<u32, u64> {
        &self.1
    }
    fn cycle_count(&self) -> usize {
        self.0.len
    }
    fn priority(&self) -> usize {
        self.0.priority
    }
}

/// What is known of a candidate: precompile, when it began, program counters since.
#[derive(Clone, Debug)]
struct Cand {
    apc: usize,
    from: usize,
    pcs: Vec<u64>,
    to: Option<usize>,
}

/// Judges a set of calls extracted from the finished candidates.
fn judge(done: &[Cand], calls: &[ApcCall<usize>], priority: &dyn Fn(usize) -> usize) -> Result<(), String> {
    let over = |a: (usize, usize), b: (usize, usize)| a.0 < b.1 && b.0 < a.1;
    let mut left: Vec<&Cand> = done.iter().collect();
    for k in calls {
        let Some(at) = left.iter().position(|d| d.apc == k.apc_id && d.from == k.from && d.to == Some(k.to)) else {
            return Err(format!("{k:?} is not a finished candidate"));
        };
        left.remove(at);
    }
    for (i, a) in calls.iter().enumerate() {
        for b in &calls[i + 1..] {
            if over((a.from, a.to), (b.from, b.to)) {
                return Err(format!("{a:?} and {b:?} overlap"));
            }
        }
    }
    for d in &left {
        // something at least as good is in the way
        let blocked = done.iter().any(|o| !std::ptr::eq(o, *d) && over((o.from, o.to.unwrap()), (d.from, d.to.unwrap())) && priority(o.apc) >= priority(d.apc));
        if !blocked {
            return Err(format!("{d:?} is missing"));
        }
    }
    // a call that beats another one which is missing for no other reason
    for k in calls {
        for d in &left {
            let beaten = done.iter().any(|o| !std::ptr::eq(o, *d) && over((o.from, o.to.unwrap()), (d.from, d.to.unwrap())) && priority(o.apc) >= priority(d.apc) && (o.apc, o.from) != (k.apc_id, k.from));
            if over((k.from, k.to), (d.from, d.to.unwrap())) && priority(d.apc) > priority(k.apc_id) && !beaten {
                return Err(format!("{k:?} is taken instead of {d:?}"));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Extract {
    Always,
    /// Only when the execution is over.
    End,
    /// Each time the clock is divisible by this, everything unfinished is given up first.
    Segments(usize),
}

/// Per step: which precompiles are tried and in which order, then the next program counter.
type Step = (Vec<usize>, u64);

fn replay(apcs: &[A], steps: &[Step], mode: Extract, tick: usize) -> Result<usize, String> {
    let mut real: ApcCandidates<St, Real, usize> = ApcCandidates::new(apcs.iter().map(|a| Real(a, a.cond.real())).collect());
    let mut model: Vec<Cand> = vec![];
    let mut all: Vec<ApcCall<usize>> = vec![];
    let mut st = St { pc: 0, clk: 5 };
    let priority = |i: usize| apcs[i].priority;
    for (n, (tried, pc)) in steps.iter().enumerate() {
        for a in tried {
            let fails = apcs[*a].cond.fails(&[st.pc]);
            if real.try_insert(&st, *a, || st.clk).is_ok() == fails {
                return Err(format!("step {n}: inserting {a} gave the wrong answer"));
            }
            if !fails {
                model.push(Cand { apc: *a, from: st.clk, pcs: vec![st.pc], to: None });
            }
        }
        st = St { pc: *pc, clk: st.clk + tick };
        real.check_conditions(&st, || st.clk);
        model.retain_mut(|m| {
            if m.to.is_none() {
                m.pcs.push(st.pc);
                if apcs[m.apc].cond.fails(&m.pcs) {
                    return false;
                }
                if m.pcs.len() == apcs[m.apc].len + 1 {
                    m.to = Some(st.clk);
                }
            }
            true
        });
        let last = n + 1 == steps.len();
        let give_up = last || matches!(mode, Extract::Segments(k) if (n + 1) % k == 0);
        if give_up {
            let mut got = real.abort_in_progress();
            let mut want: Vec<usize> = model.iter().filter(|m| m.to.is_none()).map(|m| m.apc).collect();
            got.sort();
            want.sort();
            if got != want {
                return Err(format!("step {n}: giving up {got:?} instead of {want:?}"));
            }
            model.retain(|m| m.to.is_some());
        }
        if give_up || mode == Extract::Always {
            let calls = real.extract_calls();
            if model.iter().any(|m| m.to.is_none()) {
                if !calls.is_empty() {
                    return Err(format!("step {n}: {calls:?} while a candidate is in progress"));
                }
            } else {
                judge(&model, &calls, &priority).map_err(|e| format!("step {n}: {e}; finished: {model:?}"))?;
                model.clear();
                all.extend(calls);
            }
        }
    }
    for (i, a) in all.iter().enumerate() {
        for b in &all[i + 1..] {
            if a.from < b.to && b.from < a.to {
                return Err(format!("{a:?} and {b:?} overlap"));
            }
        }
    }
    Ok(all.len())
}

fn main() {
    let c = Check::new(
        "C18",
        "model_checking",
        "all schedules of insertions, steps, aborts and extractions for all small sets of precompiles, and all blocks of small programs",
        &["candidates are inserted when their first instruction is about to run, conditions are checked after every step"],
    );
    let deep = thorough();
    schedules(&c, deep);
    programs(&c, deep);
    c.sample(json!({"precompiles": "a: 2 cycles, priority 1; b: 3 cycles, priority 2, condition pc@1 = 1", "schedule": "insert a b, step to 1, step to 0, extract"}));
    c.finish()
}

fn schedules(c: &Check, deep: bool) {
    let kinds: Vec<A> = [
        (1, 1, Cond::None),
        (2, 1, Cond::None),
        (2, 2, Cond::None),
        (3, 1, Cond::None),
        (2, 2, Cond::Is(0, 0)),
        (2, 3, Cond::Is(2, 1)),
        (3, 2, Cond::Is(1, 1)),
        (3, 3, Cond::Same(0, 2)),
        (1, 3, Cond::Same(1, 0)),
        (1, 2, Cond::Is(1, 0)),
    ]
    .iter()
    .map(|(len, priority, cond)| A { len: *len, priority: *priority, cond: *cond })
    .collect();
    for n in 1..=3 {
        let depth = match (n, deep) {
            (1, false) => 7,
            (1, true) => 9,
            (2, false) => 5,
            (2, true) => 6,
            (_, false) => 4,
            (_, true) => 5,
        };
        // what can be tried in one step
        let tries: Vec<Vec<usize>> = match n {
            1 => vec![vec![], vec![0]],
            2 => vec![vec![], vec![0], vec![1], vec![0, 1], vec![1, 0]],
            _ => vec![vec![], vec![0], vec![1], vec![2], vec![1, 0], vec![0, 2], vec![2, 1], vec![0, 1, 2]],
        };
        let sets: Vec<Vec<usize>> = tuples(kinds.len(), n).filter(|s| s.windows(2).all(|w| w[0] < w[1])).collect();
        let mut steps: Vec<Step> = vec![];
        for t in &tries {
            for pc in 0..2 {
                steps.push((t.clone(), pc));
            }
        }
        c.batch(&format!("{n} precompiles, {depth} steps"), || {
            for set in &sets {
                if c.violated() {
                    return;
                }
                let apcs: Vec<A> = set.iter().map(|k| kinds[*k].clone()).collect();
                tuples(steps.len(), depth).collect::<Vec<_>>().par_iter().for_each(|path| {
                    let path: Vec<Step> = path.iter().map(|s| steps[*s].clone()).collect();
                    c.states(1);
                    for (mode, tick) in [(Extract::Always, 1), (Extract::End, 3), (Extract::Segments(2), 1)] {
                        c.eval(1);
                        c.transitions(depth as u64);
                        match quiet_catch(|| replay(&apcs, &path, mode, tick)) {
                            Err(e) => c.violation("panic", format!("{apcs:?} {path:?} {mode:?}: {e}")),
                            Ok(Err(e)) => c.violation("calls", format!("{apcs:?} {path:?} {mode:?}: {e}")),
                            Ok(Ok(k)) => c.nontrivial((k > 1) as u64),
                        }
                    }
                });
            }
        });
    }
}

struct Built<'a> {
    apc: &'a VmApc,
    priority: usize,
}
impl Apc<State> for Built<'_> {
    fn optimistic_constraints(&self) -> &OptimisticConstraints<u32, u64> {
        &self.apc.optimistic_constraints
    }
    fn cycle_count(&self) -> usize {
        self.apc.instructions().count()
    }
    fn priority(&self) -> usize {
        self.priority
    }
}

/// Programs of the toy machine with every block and every superblock a precompile.
fn programs(c: &Check, deep: bool) {
    let airs = Airs::default();
    let alphabet = [ins(Add, 0, 0, 1, false), ins(IsZero, 1, 0, 0, false), ins(Bne, 0, 1, P - 4, false), ins(Bne, 0, 1, P - 8, false), ins(Beq, 0, 1, 8, false), ins(Jal, 1, P - 4, 0, false)];
    let n = if deep { 5 } else { 4 };
    c.batch("programs", || {
        tuples(alphabet.len(), n).collect::<Vec<_>>().par_iter().for_each(|p| {
            if c.violated() {
                return;
            }
            let mut code: Vec<Ins> = p.iter().map(|i| alphabet[*i]).collect();
            code.push(ins(Halt, 0, 0, 0, false));
            let program = Code(4, code.clone());
            // every destination of a jump
            let mut dests = BTreeSet::new();
            for (i, x) in code.iter().enumerate() {
                let pc = 4 + 4 * i as u32;
                let off = match x.op {
                    Beq | Bne => x.c,
                    Jal => x.b,
                    _ => continue,
                };
                dests.insert(((pc + off) % P) as u64);
            }
            if dests.iter().any(|d| *d < 4 || *d > 4 + 4 * n as u64 || d % 4 != 0) {
                return;
            }
            let blocks = collect_basic_blocks::<Vm>(&program, &dests);
            let mut apcs: BTreeMap<Vec<u64>, VmApc> = BTreeMap::new();
            let mut runs: Vec<([u32; 2], Vec<State>, Vec<u64>)> = vec![];
            for (x, y) in [(0u32, 0u32), (0, 2), (0, 3), (3, 2)] {
                let mut st = State { pc: 4, ts: 1, cells: [((1, 0), (x, 0)), ((1, 1), (y, 0))].into_iter().collect() };
                let mut trace = vec![st.clone()];
                let mut pcs = vec![];
                while trace.len() <= if deep { 11 } else { 9 } {
                    let i = (st.pc as usize - 4) / 4;
                    if i >= code.len() || code[i].op == Halt {
                        break;
                    }
                    if st.step(&airs, &code[i], &mut Net::default()).is_err() {
                        break;
                    }
                    pcs.push(trace.last().unwrap().pc as u64);
                    trace.push(st.clone());
                }
                if pcs.is_empty() {
                    continue;
                }
                c.states(1);
                let cfg = PowdrConfig::new(1, 0, DegreeBound { identities: 3, bus_interactions: 2 }).with_superblocks(3, None, None);
                // complete blocks only
                let mut upto = pcs.len();
                while upto > 0 && !blocks.iter().any(|b| b.pcs().last() == Some(pcs[upto - 1])) {
                    upto -= 1;
                }
                let found = detect_superblocks(&cfg, &pcs[..upto], blocks.clone());
                for b in &found.blocks {
                    apcs.entry(b.block.start_pcs()).or_insert_with(|| build_it(&airs, &b.block));
                }
                runs.push(([x, y], trace, pcs));
            }
            let ids: Vec<&Vec<u64>> = apcs.keys().collect();
            for (registers, trace, pcs) in &runs {
                for order in 0..2 {
                    let rank = |i: usize| if order == 0 { i } else { 100 - apcs[ids[i]].instructions().count() };
                    let mut real: ApcCandidates<State, Built, usize> =
                        ApcCandidates::new(ids.iter().enumerate().map(|(i, k)| Built { apc: &apcs[*k], priority: rank(i) }).collect());
                    let mut all = vec![];
                    c.eval(1);
                    c.transitions(pcs.len() as u64);
                    for (t, pc) in pcs.iter().enumerate() {
                        for (i, k) in ids.iter().enumerate() {
                            if k[0] == *pc {
                                let _ = real.try_insert(&trace[t], i, || t);
                            }
                        }
                        real.check_conditions(&trace[t + 1], || t + 1);
                        all.extend(real.extract_calls());
                    }
                    real.abort_in_progress();
                    all.extend(real.extract_calls());
                    // every complete execution of a precompile's blocks
                    let mut done = vec![];
                    for t in 0..pcs.len() {
                        for (i, k) in ids.iter().enumerate() {
                            let want: Vec<u64> = apcs[*k].block.pcs().collect();
                            if pcs[t..].starts_with(&want) {
                                done.push(Cand { apc: i, from: t, pcs: want.clone(), to: Some(t + want.len()) });
                            }
                        }
                    }
                    c.nontrivial((all.len() > 1) as u64);
                    if let Err(e) = judge(&done, &all, &rank) {
                        c.violation("program", format!("{code:?}, registers {registers:?}, program counters {pcs:?}, precompiles {ids:?}: {e}"));
                    }
                }
            }
        });
    });
}

fn build_it(airs: &Airs, block: &SuperBlock<Ins>) -> VmApc {
    build::<Vm>(block.clone(), vm_config(airs), DegreeBound { identities: 3, bus_interactions: 2 }, ExportOptions::new(None, &[], ExportLevel::OnlyAPC), &EmpiricalConstraints::default())
        .unwrap_or_else(|_| panic!("no precompile for {block}"))
}
