//! Comparing a generated precompile with an interpreter of its block.
use crate::vm::Op::*;
use crate::vm::*;
use crate::{EXEC, MEM};
use mc_core::*;
use powdr_autoprecompiles::blocks::{BasicBlock, SuperBlock};
use powdr_autoprecompiles::empirical_constraints::EmpiricalConstraints;
use powdr_autoprecompiles::execution::{OptimisticConstraintEvaluator, OptimisticConstraints};
use powdr_autoprecompiles::export::ExportOptions;
use powdr_autoprecompiles::trace_handler::{generate_trace, TraceData};
use powdr_autoprecompiles::{build, DegreeBound};
use powdr_constraint_solver::constraint_system::ComputationMethod;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub const TS: u32 = 6;

pub type Block = Vec<BasicBlock<Ins>>;
/// An initial state; the instructions' rows and their effect, if it can be run.
pub type Run = (State, Result<(Vec<Vec<u32>>, Net), &'static str>);

pub fn show(b: &Block) -> String {
    b.iter().map(|b| format!("{}: {}", b.start_pc, b.instructions.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("; "))).collect::<Vec<_>>().join(" | ")
}

/// The addresses that registers and memory are explored at.
pub fn registers(b: &Block) -> BTreeSet<u32> {
    let mut r = BTreeSet::new();
    for i in b.iter().flat_map(|b| &b.instructions) {
        match i.op {
            Beq | Bne | Load | Store | IsZero => r.extend([i.a, i.b]),
            Jal => r.extend([i.a]),
            Add | Sub | Xor => {
                r.extend([i.a, i.b]);
                if i.reg {
                    r.insert(i.c);
                }
            }
            _ => r.extend([i.a, i.b, i.c]),
        }
    }
    r
}

pub struct Ctx<'a> {
    pub c: &'a Check,
    pub airs: Airs,
    pub tables: HashMap<u32, Rc<HashSet<Vec<u32>>>>,
    pub bound: DegreeBound,
}

impl<'a> Ctx<'a> {
    pub fn new(c: &'a Check, bound: (usize, usize)) -> Self {
        let toy = crate::Toy::new(P);
        let tables = toy.0.tables.iter().map(|(k, t)| (*k, Rc::new(t.iter().cloned().collect()))).collect();
        Ctx { c, airs: Airs::default(), tables, bound: DegreeBound { identities: bound.0, bus_interactions: bound.1 } }
    }

    pub fn check(&self, blocks: &Block) {
        self.check_with(blocks, &EmpiricalConstraints::default(), &self.runs(blocks), "");
    }

    /// Builds the block's precompile under assumptions and compares it; `runs` are the
    /// runs that it has to accept.
    pub fn check_with(&self, blocks: &Block, assumptions: &EmpiricalConstraints, runs: &[Run], note: &str) {
        let c = self.c;
        let text = format!("{} (bound {:?}){note}", show(blocks), self.bound);
        let t2 = text.clone();
        c.states(1);
        let built = c.run(
            move || t2.clone(),
            || {
                build::<Vm>(
                    SuperBlock::from(blocks.clone()),
                    vm_config(&self.airs),
                    self.bound,
                    ExportOptions::default(),
                    assumptions,
                )
            },
        );
        let fail = |kind: &str, what: String| c.violation(kind, format!("{text}: {what}"));
        let apc = match built {
            Ok(Ok(apc)) => apc,
            Ok(Err(e)) => {
                // nothing to build if the block can never be executed
                match runs.iter().find(|r| r.1.is_ok()) {
                    Some(r) => fail("unsatisfiable", format!("reported as {e:?} but it runs from {:?}", r.0)),
                    None => c.count("blocks that can never run", 1),
                }
                return;
            }
            Err(e) => {
                if runs.iter().any(|r| r.1.is_ok()) {
                    let site = e.split(" at ").nth(1).unwrap_or("").split(".rs").next().unwrap_or("").to_string();
                    fail(&format!("panic {}", site.rsplit('/').next().unwrap_or("")), e);
                }
                return;
            }
        };
        if let Err((kind, what)) = self.compare(blocks, &apc, runs) {
            fail(kind, format!("{what}\n{}", apc.machine().render(&bus_map())));
        }
    }

    /// The interpreter's runs from all the initial states.
    pub fn runs(&self, blocks: &Block) -> Vec<Run> {
        let regs: Vec<u32> = registers(blocks).into_iter().collect();
        let has_mem = blocks.iter().flat_map(|b| &b.instructions).any(|i| matches!(i.op, Load | Store));
        let sb = SuperBlock::from(blocks.clone());
        let mut out = vec![];
        for values in tuples(4, regs.len()) {
            for stamp in 0..3 {
                for mem in 0..if has_mem { 2 } else { 1 } {
                    let prev = |k: u32| [TS - 1, TS - 6, [TS - 1, TS - 3, TS - 6][k as usize % 3]][stamp];
                    let mut s = State { pc: blocks[0].start_pc as u32, ts: TS, cells: BTreeMap::new() };
                    for (r, v) in regs.iter().zip(&values) {
                        s.cells.insert((1, *r), (*v as u32, prev(*r)));
                    }
                    for a in 0..P {
                        s.cells.insert((2, a), ((a + mem * (2 * a + 1)) % 4, prev(a + 1)));
                    }
                    let start = s.clone();
                    out.push((start, s.run(&self.airs, sb.instructions())));
                }
            }
        }
        out
    }

    pub fn compare(&self, blocks: &Block, apc: &VmApc, runs: &[Run]) -> Result<(), (&'static str, String)> {
        let c = self.c;
        let sb = SuperBlock::from(blocks.clone());
        let instructions: Vec<Ins> = sb.instructions().map(|(_, i)| *i).collect();
        let machine = apc.machine();

        // where the columns are
        let index: BTreeMap<u64, usize> = machine.main_columns().enumerate().map(|(i, r)| (r.id, i)).collect();
        let at = |id: u64| index.get(&id).copied().unwrap_or(usize::MAX);
        let n = index.len();
        let zeros: Vec<Poly> = machine.constraints.iter().map(|c| Poly::of(&c.expr, &at)).collect();
        let buses: Vec<(u32, Poly, Vec<Poly>)> =
            machine.bus_interactions.iter().map(|b| (b.id as u32, Poly::of(&b.mult, &at), b.args.iter().map(|a| Poly::of(a, &at)).collect())).collect();
        let flag = machine
            .derived_columns
            .iter()
            .find(|d| *d.variable.name == "is_valid")
            .map(|d| at(d.variable.id))
            .filter(|i| *i < n)
            .ok_or(("flag", "there is no validity flag".to_string()))?;

        // degrees, as written
        for k in &machine.constraints {
            if k.expr.degree() > self.bound.identities.max(2) {
                return Err(("degree", format!("{k}")));
            }
        }
        for b in &machine.bus_interactions {
            if b.mult.degree() > self.bound.bus_interactions || b.args.iter().any(|a| a.degree() > self.bound.bus_interactions) {
                return Err(("degree of a bus interaction", format!("{b}")));
            }
        }

        // every column comes from somewhere
        let mut known: BTreeSet<u64> = BTreeSet::new();
        if apc.subs().len() != instructions.len() {
            return Err(("substitutions", "not one list for every instruction".into()));
        }
        for s in apc.subs().iter().flatten() {
            if !known.insert(s.apc_poly_id) {
                return Err(("substitutions", format!("column {} twice", s.apc_poly_id)));
            }
        }
        for d in &machine.derived_columns {
            if let ComputationMethod::QuotientOrZero(a, b) = &d.computation_method {
                for p in [Poly::of(a, &|id| id as usize), Poly::of(b, &|id| id as usize)] {
                    if let Some(v) = p.vars().iter().find(|v| !known.contains(&(**v as u64))) {
                        return Err(("derived column", format!("{} is computed from column {v}, which is not known", d.variable)));
                    }
                }
            }
            known.insert(d.variable.id);
        }
        if let Some(id) = index.keys().find(|id| !known.contains(id)) {
            return Err(("unknown column", format!("column {id} is neither an original column nor computed")));
        }

        // completeness: two calls at a time
        let good: Vec<_> = runs.iter().filter_map(|(s, r)| r.as_ref().ok().map(|r| (s, &r.0, &r.1))).collect();
        for pair in good.chunks(2) {
            let mut traces: HashMap<u8, Rows> = HashMap::new();
            for (_, rows, _) in pair {
                for ((i, row), subs) in instructions.iter().zip(*rows).zip(apc.subs()) {
                    if !subs.is_empty() {
                        let t = traces.entry(air_id(i.op)).or_insert(Rows { width: row.len(), values: vec![] });
                        t.values.extend(row.iter().map(|v| F::new(*v as i64)));
                    }
                }
            }
            let TraceData { dummy_values, dummy_trace_index_to_apc_index_by_instruction, apc_poly_id_to_index, columns_to_compute } =
                generate_trace(&traces, &self.airs, pair.len(), apc);
            let width = apc_poly_id_to_index.len();
            if width != n || apc_poly_id_to_index.values().copied().ne(0..n) {
                return Err(("columns", format!("{apc_poly_id_to_index:?} is not a numbering of {n} columns")));
            }
            for ((start, _, net), values) in pair.iter().zip(dummy_values) {
                c.eval(1);
                let mut row = vec![0u32; width];
                for (r, map) in values.iter().zip(&dummy_trace_index_to_apc_index_by_instruction) {
                    let r = &r.data[r.start..r.start + r.length];
                    for (from, to) in map {
                        row[*to] = r[*from].val();
                    }
                }
                for d in columns_to_compute {
                    let i = apc_poly_id_to_index[&d.variable.id];
                    row[i] = match &d.computation_method {
                        ComputationMethod::Constant(k) => k.val(),
                        ComputationMethod::QuotientOrZero(a, b) => {
                            let ix = |id: u64| apc_poly_id_to_index[&id];
                            let (a, b) = (Poly::of(a, &ix).eval(&row), Poly::of(b, &ix).eval(&row));
                            (0..P).find(|q| b != 0 && q * b % P == a).unwrap_or(0)
                        }
                    };
                }
                let broken = |what: String| ("a run is rejected", format!("from {start:?} the row {row:?} violates {what}"));
                for (k, z) in zeros.iter().enumerate() {
                    if z.eval(&row) != 0 {
                        return Err(broken(machine.constraints[k].to_string()));
                    }
                }
                let mut got = Net::new();
                for (k, (id, m, a)) in buses.iter().enumerate() {
                    let (m, a) = (m.eval(&row), a.iter().map(|p| p.eval(&row)).collect::<Vec<_>>());
                    match self.tables.get(id) {
                        Some(t) if m != 0 && !t.contains(&a) => return Err(broken(machine.bus_interactions[k].to_string())),
                        Some(_) => {}
                        None => add_net(&mut got, *id, a, m),
                    }
                }
                got.retain(|_, m| *m != 0);
                if got != **net {
                    return Err(("a run has another effect", format!("from {start:?}\nthe row has {got:?}\nthe instructions {net:?}")));
                }
            }
        }

        // the conditions for running it
        let mut path = vec![];
        let mut k = 0;
        for b in blocks {
            path.push((k, b.start_pc));
            k += b.instructions.len();
        }
        if apc.start_pcs() != path.iter().map(|p| p.1).collect::<Vec<_>>() {
            return Err(("start", format!("the precompile is for {:?}", apc.start_pcs())));
        }
        for (start, _) in runs.iter().step_by(5) {
            let conditions: &OptimisticConstraints<u32, u64> = &apc.optimistic_constraints;
            let mut e = OptimisticConstraintEvaluator::new();
            let mut s = start.clone();
            for (k, i) in instructions.iter().enumerate() {
                let follows = path.iter().all(|(j, pc)| *j != k || *pc == s.pc as u64);
                let accepted = e.try_next_execution_step(&s, conditions).is_ok();
                if accepted != follows {
                    return Err(("condition", format!("at instruction {k} in {s:?} the conditions say {accepted}")));
                }
                if !accepted || s.step(&self.airs, i, &mut Net::new()).is_err() {
                    break;
                }
            }
        }

        // soundness: all rows with the flag set
        let mut rules: Vec<Rule> = zeros.iter().map(|z| Rule::Zero(z.with(flag, 1))).collect();
        let mut outside = vec![];
        for (id, m, a) in &buses {
            let (m, a) = (m.with(flag, 1), a.iter().map(|p| p.with(flag, 1)).collect::<Vec<_>>());
            if let Some(t) = self.tables.get(id) {
                rules.push(Rule::Lookup(m, a, t.clone()));
                continue;
            }
            if m.constant() == Some(P - 1) {
                if *id == EXEC {
                    rules.push(Rule::Among(a[1].clone(), vec![TS]));
                } else {
                    // memory holds two-bit values; when it was accessed is explored in part
                    rules.push(Rule::Among(a[2].clone(), (0..4).collect()));
                    let mut stamps = vec![TS - 6, TS - 1, TS + 2];
                    if a[1].constant().is_none() {
                        stamps.extend(TS..TS + 9);
                    }
                    if a[3].constant().is_none() {
                        rules.push(Rule::Among(a[3].clone(), stamps));
                    }
                }
            }
            outside.push((*id, m, a));
        }
        rules.push(Rule::Among(Poly { terms: vec![(1, vec![flag])] }, vec![1]));
        let mut wrong = None;
        let mut solutions = 0u64;
        let visited = search(n, &rules, &mut |row| {
            solutions += 1;
            let mut net = Net::new();
            for (id, m, a) in &outside {
                add_net(&mut net, *id, a.iter().map(|p| p.eval(row)).collect(), m.eval(row));
            }
            net.retain(|_, m| *m != 0);
            wrong = self.execution(blocks, &sb, &net).map(|w| format!("the row {row:?} is accepted with {net:?}, {w}"));
            wrong.is_none()
        });
        c.transitions(visited);
        c.count("accepted rows", solutions);
        c.nontrivial((solutions > 0) as u64);
        if let Some(w) = wrong {
            return Err(("accepts something else", w));
        }
        if solutions == 0 && !good.is_empty() {
            return Err(("accepts nothing", "no accepted row was found".into()));
        }

        // inactive: the zero row, and no interaction in any row
        let zero = vec![0; n];
        if let Some(k) = zeros.iter().position(|z| z.eval(&zero) != 0) {
            return Err(("zero row", format!("the zero row violates {}", machine.constraints[k])));
        }
        if let Some(k) = buses.iter().position(|b| b.1.eval(&zero) != 0) {
            return Err(("zero row", format!("the zero row takes part in {}", machine.bus_interactions[k])));
        }
        let off: Vec<Poly> = zeros.iter().map(|z| z.with(flag, 0)).collect();
        for (k, (_, m, _)) in buses.iter().enumerate() {
            let mut rules: Vec<Rule> = off.iter().cloned().map(Rule::Zero).collect();
            rules.push(Rule::NonZero(m.with(flag, 0)));
            for (id, m, a) in &buses {
                if let Some(t) = self.tables.get(id) {
                    rules.push(Rule::Lookup(m.with(flag, 0), a.iter().map(|p| p.with(flag, 0)).collect(), t.clone()));
                }
            }
            let mut bad = None;
            let visited = search(n, &rules, &mut |row| {
                bad = Some(row.to_vec());
                false
            });
            c.transitions(visited);
            if let Some(row) = bad {
                return Err(("inactive", format!("the inactive row {row:?} takes part in {}", machine.bus_interactions[k])));
            }
        }
        let values: Vec<u32> = (0..P).filter(|x| zeros.iter().all(|z| z.with(flag, *x).constant().is_none_or(|v| v == 0))).collect();
        if values != [0, 1] {
            return Err(("flag", format!("the flag can be any of {values:?}")));
        }
        Ok(())
    }

    /// Whether the interactions are those of an execution of the block, as far as they
    /// can be part of a valid memory history at all.
    fn execution(&self, blocks: &Block, sb: &SuperBlock<Ins>, net: &Net) -> Option<String> {
        let mut s = State { pc: 0, ts: 0, cells: BTreeMap::new() };
        let mut started = 0;
        for ((id, t), m) in net {
            if *m != 1 && *m != P - 1 {
                return (*id == EXEC).then(|| "control is passed more than once".into());
            }
            if *m == 1 {
                continue;
            }
            if *id == EXEC {
                (s.pc, s.ts) = (t[0], t[1]);
                started += 1;
            } else if *id == MEM && s.cells.insert((t[0], t[1]), (t[2], t[3])).is_some() {
                // the same cell cannot be received twice
                return None;
            }
        }
        if started != 1 || s.pc as u64 != blocks[0].start_pc {
            return Some("which does not start at the block".into());
        }
        match s.clone().run(&self.airs, sb.instructions()) {
            Err(e) => Some(format!("but from {s:?}: {e}")),
            Ok((_, want)) if want != *net => Some(format!("but from {s:?} the block does {want:?}")),
            Ok(_) => None,
        }
    }
}

/// The blocks and superblocks that a sequence of instructions can be executed as.
pub fn paths(seq: &[Ins]) -> Vec<Block> {
    let mut open: Vec<(Block, u64)> = vec![(vec![BasicBlock { start_pc: 4, instructions: vec![] }], 4)];
    for (k, i) in seq.iter().enumerate() {
        let mut next = vec![];
        for (mut b, pc) in open {
            b.last_mut().unwrap().instructions.push(*i);
            let last = k + 1 == seq.len();
            let targets = match i.op {
                Beq | Bne => BTreeSet::from([pc + 4, pc + i.c as u64]),
                Jal => BTreeSet::from([pc + i.b as u64]),
                _ => {
                    next.push((b, pc + 4));
                    continue;
                }
            };
            for t in targets {
                let mut b = b.clone();
                if !last {
                    b.push(BasicBlock { start_pc: t, instructions: vec![] });
                }
                next.push((b, t));
                if last {
                    break;
                }
            }
        }
        open = next;
    }
    open.into_iter().map(|(b, _)| b).collect()
}

