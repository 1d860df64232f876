//! C19: optimistic conditions are evaluated exactly as written.
//!
//! All sets of conditions over an alphabet and all executions up to a bound are
//! evaluated step by step by the real evaluator and compared with evaluating every
//! condition over the complete list of states. Literals generated for the columns of an
//! instruction are compared with the rows the toy machine's interpreter fills in.
use mc_apc::vm::Op::*;
use mc_apc::vm::*;
use mc_core::rayon::prelude::*;
use mc_core::serde_json::json;
use mc_core::*;
use powdr_autoprecompiles::blocks::{BasicBlock, SuperBlock};
use powdr_autoprecompiles::empirical_constraints::{EqualityConstraint, EqualityExpression};
use powdr_autoprecompiles::execution::*;
use powdr_autoprecompiles::expression::AlgebraicReference;
use powdr_autoprecompiles::optimistic::execution_constraint_generator::generate_execution_constraints;
use powdr_autoprecompiles::optimistic::execution_literals::optimistic_literals;
use powdr_autoprecompiles::DegreeBound;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug)]
struct St {
    pc: u64,
    regs: [u64; 2],
}
impl ExecutionState for St {
    type RegisterAddress = u32;
    type Value = u64;
    fn pc(&self) -> u64 {
        self.pc
    }
    /// Limbs are two bits wide.
    fn value_limb(value: u64, limb: usize) -> u64 {
        value >> (2 * limb) & 3
    }
    fn reg(&self, a: &u32) -> u64 {
        self.regs[*a as usize]
    }
    fn global_clk(&self) -> usize {
        unreachable!()
    }
}

type Ex = OptimisticExpression<u32, u64>;
type Co = OptimisticConstraint<u32, u64>;

fn literal(instr_idx: usize, val: LocalOptimisticLiteral<u32>) -> Ex {
    OptimisticExpression::Literal(OptimisticLiteral { instr_idx, val })
}
fn value(e: &Ex, states: &[St]) -> Option<u64> {
    match e {
        OptimisticExpression::Number(n) => Some(*n),
        OptimisticExpression::Literal(l) => states.get(l.instr_idx).map(|s| match l.val {
            LocalOptimisticLiteral::Pc => s.pc,
            LocalOptimisticLiteral::RegisterLimb(a, i) => s.regs[a as usize] >> (2 * i) & 3,
        }),
    }
}

fn main() {
    let c = Check::new(
        "C19",
        "model_checking",
        "all sets of up to three conditions over an alphabet x all executions up to a bound; all blocks of up to two instructions x all register contents",
        &["the states of an execution are passed to the evaluator in order, one per step"],
    );
    let deep = thorough();
    evaluation(&c, deep);
    literals(&c, deep);
    limbs(&c);
    c.sample(json!({"conditions": ["reg0[0]@0 = reg1[1]@2", "pc@1 = 1"], "execution": "three states"}));
    c.finish()
}

fn evaluation(c: &Check, deep: bool) {
    use LocalOptimisticLiteral::*;
    let steps = 3;
    let mut atoms = vec![OptimisticExpression::Number(0), OptimisticExpression::Number(1)];
    for k in 0..steps {
        atoms.push(literal(k, Pc));
        atoms.push(literal(k, RegisterLimb(0, 0)));
        atoms.push(literal(k, RegisterLimb(0, 1)));
        if k != 1 {
            atoms.push(literal(k, RegisterLimb(1, 0)));
        }
    }
    let all: Vec<Co> = tuples(atoms.len(), 2).map(|t| OptimisticConstraint { left: atoms[t[0]].clone(), right: atoms[t[1]].clone() }).collect();
    // register 0 has two limbs
    let states: Vec<St> = [(0, 0, 0), (1, 0, 1), (0, 1, 0), (1, 4, 0), (0, 5, 1), (1, 1, 4)].iter().map(|(pc, a, b)| St { pc: *pc, regs: [*a, *b] }).collect();
    let some: Vec<&Co> = all.iter().step_by(if deep { 1 } else { 2 }).collect();
    let few: Vec<&Co> = all.iter().step_by(if deep { 3 } else { 5 }).collect();
    let mut sets: Vec<Vec<Co>> = vec![vec![]];
    sets.extend(all.iter().map(|c| vec![c.clone()]));
    sets.extend(tuples(some.len(), 2).map(|t| t.iter().map(|i| some[*i].clone()).collect()));
    sets.extend(tuples(few.len(), 3).map(|t| t.iter().map(|i| few[*i].clone()).collect()));
    let executions: Vec<Vec<St>> = tuples(states.len(), steps).map(|t| t.iter().map(|i| states[*i]).collect()).collect();
    c.count("condition_sets", sets.len() as u64);
    c.batch("evaluation", || {
        sets.par_iter().for_each(|set| {
            if c.violated() {
                return;
            }
            let real = OptimisticConstraints::from_constraints(set.clone());
            c.states(1);
            for e in &executions {
                c.eval(1);
                let got = quiet_catch(|| {
                    let mut ev = OptimisticConstraintEvaluator::new();
                    for (k, s) in e.iter().enumerate() {
                        if ev.instruction_index() != k {
                            return Err(k);
                        }
                        if ev.try_next_execution_step(s, &real).is_err() {
                            return Ok(Some(k));
                        }
                    }
                    Ok(None)
                });
                c.transitions(steps as u64);
                let want = (0..steps).find(|k| {
                    set.iter().any(|co| match (value(&co.left, &e[..=*k]), value(&co.right, &e[..=*k])) {
                        (Some(a), Some(b)) => a != b,
                        _ => false,
                    })
                });
                c.nontrivial(want.is_some_and(|k| k > 0) as u64);
                if got != Ok(Ok(want)) {
                    c.violation("evaluation", format!("{set:?} over {e:?}: {got:?} instead of {want:?}"));
                    return;
                }
            }
        });
    });
}

/// The value the literal refers to, in a list of states of the toy machine.
fn fetch(l: &OptimisticLiteral<Vec<F>>, trace: &[State]) -> Option<u64> {
    let s = trace.get(l.instr_idx)?;
    match &l.val {
        LocalOptimisticLiteral::Pc => Some(s.pc as u64),
        LocalOptimisticLiteral::RegisterLimb(a, i) => {
            let a: Vec<u32> = a.iter().map(|x| x.val()).collect();
            match a[..] {
                [space, at] if *i == 0 => s.cells.get(&(space, at)).map(|c| c.0 as u64),
                _ => None,
            }
        }
    }
}

/// Registers of two limbs; the instruction reads one and writes its limbs exchanged to another.
fn limbs(c: &Check) {
    let airs = Airs::default();
    let bound = DegreeBound { identities: 3, bus_interactions: 2 };
    c.batch("limbs", || {
        for t in tuples(9, 2) {
            let code: Vec<Ins> = t.iter().map(|k| ins(Wide, (k / 3) as u32, (k % 3) as u32, 0, false)).collect();
            let block = SuperBlock::from(BasicBlock { start_pc: 4, instructions: code.clone() });
            let map = match quiet_catch(|| optimistic_literals::<Vm>(&block, &vm_config(&airs), &bound)) {
                Ok(m) => m,
                Err(e) => {
                    c.violation("panic", format!("{code:?}: {e}"));
                    return;
                }
            };
            c.states(1);
            // register contents are two-limb symbols; what a column holds at the step of its literal
            for start in tuples(4, 3) {
                c.eval(1);
                let mut regs: Vec<[usize; 2]> = start.iter().enumerate().map(|(i, v)| [10 * i + v, 100 + 10 * i + v]).collect();
                let mut trace = vec![regs.clone()];
                let mut rows = vec![];
                for x in &code {
                    let v = regs[x.b as usize];
                    let old = regs[x.a as usize];
                    regs[x.a as usize] = [v[1], v[0]];
                    rows.push(BTreeMap::from([("x0", v[0]), ("x1", v[1]), ("o0", old[0]), ("o1", old[1])]));
                    trace.push(regs.clone());
                }
                let names = airs.names(Wide);
                for (r, l) in &map {
                    let (i, k) = (r.id as usize / names.len(), r.id as usize % names.len());
                    let LocalOptimisticLiteral::RegisterLimb(a, limb) = &l.val else {
                        c.violation("literal", format!("{code:?}: {r} is the program counter"));
                        return;
                    };
                    let v = trace.get(l.instr_idx).and_then(|t| t.get(a[1].val() as usize)).and_then(|v| v.get(*limb));
                    c.nontrivial(1);
                    if v.is_none() || rows.get(i).and_then(|x| x.get(names[k])) != v || a[0].val() != 3 {
                        c.violation("literal", format!("{code:?}: column {r} ({}) is given as {l:?}", names[k]));
                        return;
                    }
                }
            }
        }
    });
}

fn literals(c: &Check, deep: bool) {
    let airs = Airs::default();
    let bound = DegreeBound { identities: 3, bus_interactions: 2 };
    let mut alphabet = vec![];
    for op in [Add, Sub, Xor] {
        for (a, b, x) in [(0, 0, 0), (0, 1, 0), (1, 0, 0), (1, 1, 1), (0, 1, 1)] {
            alphabet.push(ins(op, a, b, x, true));
        }
        alphabet.push(ins(op, 0, 0, 1, false));
        alphabet.push(ins(op, 1, 0, 3, false));
    }
    for op in [Lt, Mul] {
        for (a, b, x) in [(0, 0, 1), (1, 0, 0), (0, 1, 0)] {
            alphabet.push(ins(op, a, b, x, true));
        }
    }
    alphabet.extend([ins(Load, 0, 1, 0, false), ins(Load, 1, 1, 1, false), ins(Store, 0, 1, 0, false), ins(Store, 0, 0, 1, false)]);
    alphabet.extend([ins(IsZero, 0, 1, 0, false), ins(IsZero, 1, 1, 0, false), ins(Beq, 0, 1, 4, false), ins(Bne, 1, 1, 4, false), ins(Jal, 0, 4, 2, false)]);
    let pairs = if deep { 1 } else { 2 };
    let mut blocks: Vec<Vec<Ins>> = alphabet.iter().map(|i| vec![*i]).collect();
    blocks.extend(tuples(alphabet.len(), 2).enumerate().filter(|(k, _)| k % pairs == 0).map(|(_, t)| t.iter().map(|i| alphabet[*i]).collect()));
    blocks.extend([vec![alphabet[0], alphabet[9], alphabet[16]], vec![alphabet[3], alphabet[21], alphabet[27]]]);
    c.count("blocks", blocks.len() as u64);
    c.batch("literals", || {
        blocks.par_iter().for_each(|code| {
            if c.violated() {
                return;
            }
            c.states(1);
            let block = SuperBlock::from(BasicBlock { start_pc: 4, instructions: code.clone() });
            let map = match quiet_catch(|| optimistic_literals::<Vm>(&block, &vm_config(&airs), &bound)) {
                Ok(m) => m,
                Err(e) => {
                    c.violation("panic", format!("{code:?}: {e}"));
                    return;
                }
            };
            // the columns are numbered instruction by instruction
            let mut cells = vec![];
            for (i, x) in code.iter().enumerate() {
                for (k, name) in airs.names(x.op).iter().enumerate() {
                    cells.push((i, k, *name));
                }
            }
            for r in map.keys() {
                if r.id as usize >= cells.len() {
                    c.violation("column", format!("{code:?}: {r} is not a column of the block"));
                    return;
                }
            }
            // every register value read is known before, the one written after
            for (i, x) in code.iter().enumerate() {
                let reads: &[&str] = match x.op {
                    Add | Sub | Xor => &["b"],
                    Beq | Bne | Lt | Mul => &["x", "y"],
                    Load | Store => &["base"],
                    IsZero => &["x"],
                    _ => &[],
                };
                for name in reads {
                    let id = cells.iter().position(|(j, _, n)| *j == i && n == name).unwrap() as u64;
                    if map.keys().any(|r| r.id == id) {
                        c.nontrivial(1);
                    }
                }
            }
            let conditions: Vec<EqualityConstraint<F>> = map
                .keys()
                .flat_map(|a| {
                    map.keys()
                        .map(|b| EqualityConstraint { left: EqualityExpression::Reference(a.clone()), right: EqualityExpression::Reference(b.clone()) })
                        .chain([0, 3].map(|n| EqualityConstraint { left: EqualityExpression::Number(F::new(n)), right: EqualityExpression::Reference(a.clone()) }))
                        .collect::<Vec<_>>()
                })
                .collect();
            let generated = generate_execution_constraints(&conditions, &map);
            if generated.len() != conditions.len() {
                c.violation("conditions", format!("{code:?}: {} conditions from {}", generated.len(), conditions.len()));
                return;
            }
            for regs in tuples(4, 2) {
                for m in [0u32, 2] {
                    let mut st = State { pc: 4, ts: 4, cells: BTreeMap::new() };
                    for (i, r) in regs.iter().enumerate() {
                        st.cells.insert((1, i as u32), (*r as u32, 1));
                    }
                    for a in 0..8 {
                        st.cells.insert((2, a), ((m + a) % 4, 1));
                    }
                    let mut trace = vec![st.clone()];
                    let mut rows = vec![];
                    for x in code {
                        match st.step(&airs, x, &mut Net::default()) {
                            Ok(row) => rows.push(row),
                            Err(_) => break,
                        }
                        trace.push(st.clone());
                    }
                    if rows.len() < code.len() {
                        continue;
                    }
                    c.eval(1);
                    c.transitions(code.len() as u64);
                    let column = |r: &AlgebraicReference| {
                        let (i, k, _) = cells[r.id as usize];
                        rows[i][k] as u64
                    };
                    for (r, l) in &map {
                        let v = fetch(l, &trace);
                        if v != Some(column(r)) {
                            c.violation("literal", format!("{code:?} registers {regs:?}: column {r} of {:?} is {} but the literal {l:?} is {v:?}", cells[r.id as usize], column(r)));
                            return;
                        }
                    }
                    for (co, g) in conditions.iter().zip(&generated) {
                        let of = |e: &EqualityExpression<F>| match e {
                            EqualityExpression::Reference(r) => Some(column(r)),
                            EqualityExpression::Number(n) => Some(n.val() as u64),
                        };
                        let is = |e: &OptimisticExpression<Vec<F>, u32>| match e {
                            OptimisticExpression::Literal(l) => fetch(l, &trace),
                            OptimisticExpression::Number(n) => Some(*n as u64),
                        };
                        if of(&co.left) != is(&g.left) || of(&co.right) != is(&g.right) {
                            c.violation("conditions", format!("{code:?} registers {regs:?}: {g:?}"));
                            return;
                        }
                    }
                }
            }
        });
    });
}
