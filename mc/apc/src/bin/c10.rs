//! C10: the OpenVM bus interaction handler refines exactly the buses it models.
//!
//! The buses are written down here as predicates on concrete tuples. Every
//! combination of field ranges from an alphabet is handed to the handler and the
//! answer compared with the set of accepted tuples; pure range checks and the range
//! checks built for a request are compared with the buses over all assignments to a
//! grid of values.
use mc_core::rayon::prelude::*;
use mc_core::serde_json::json;
use mc_core::*;
use powdr_autoprecompiles::bus_map::BusType;
use powdr_autoprecompiles::constraint_optimizer::IsBusStateful;
use powdr_autoprecompiles::range_constraint_optimizer::RangeConstraintHandler;
use powdr_constraint_solver::constraint_system::{BusInteraction, BusInteractionHandler};
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_number::{BabyBearField, FieldElement, GoldilocksField, KoalaBearField, LargeInt, Mersenne31Field};
use powdr_openvm_bus_interaction_handler::bus_map::{default_openvm_bus_map, BusMap, OpenVmBusType};
use powdr_openvm_bus_interaction_handler::OpenVmBusInteractionHandler;
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bus {
    Exec,
    Mem,
    Pc,
    Var,
    Bit,
    Tuple(u64, u64),
}

/// Does the bus accept this tuple, sent with this multiplicity?
fn accepts(bus: Bus, p: u64, mult: u64, t: &[u64]) -> bool {
    if mult == 0 {
        return true;
    }
    match bus {
        Bus::Exec | Bus::Pc => true,
        Bus::Mem => {
            if mult != p - 1 {
                return true;
            }
            let data = &t[2..t.len() - 1];
            match t[0] {
                1 if t[1] == 0 => data.iter().all(|d| *d == 0),
                1 | 2 => data.iter().all(|d| *d < 256),
                _ => true,
            }
        }
        Bus::Var => t[1] <= 25 && t[0] < 1 << t[1],
        Bus::Bit => match t[3] {
            0 => t[0] < 256 && t[1] < 256 && t[2] == 0,
            1 => t[0] < 256 && t[1] < 256 && t[2] == t[0] ^ t[1],
            _ => false,
        },
        Bus::Tuple(a, b) => t[0] < a && t[1] < b,
    }
}

fn v<T: FieldElement>(x: T) -> u64 {
    x.to_integer().try_into_u64().unwrap()
}
fn prime<T: FieldElement>() -> u64 {
    T::modulus().try_into_u64().unwrap()
}

/// A range constraint read out into plain integers.
#[derive(Clone, Copy)]
struct R {
    lo: u64,
    hi: u64,
    mask: u64,
}
impl R {
    fn of<T: FieldElement>(r: &RangeConstraint<T>) -> R {
        let (lo, hi) = r.range();
        R { lo: v(lo), hi: v(hi), mask: r.mask().try_into_u64().unwrap() }
    }
    fn has(&self, x: u64) -> bool {
        x & self.mask == x
            && if self.lo <= self.hi { self.lo <= x && x <= self.hi } else { self.lo <= x || x <= self.hi }
    }
}

fn rc_alphabet<T: FieldElement>(p: u64, deep: bool) -> Vec<RangeConstraint<T>> {
    let val = |x: u64| RangeConstraint::from_value(T::from(x));
    let range = |a: u64, b: u64| RangeConstraint::from_range(T::from(a), T::from(b));
    let mask = |m: u64| RangeConstraint::<T>::from_mask(m);
    let mut r = vec![
        RangeConstraint::default(),
        val(0),
        val(1),
        val(255),
        val(256),
        val(300),
        mask(1),
        mask(0xff),
        mask(0xf0),
        mask(0x1ff),
        range(3, 7),
        range(250, 260),
        range(p - 3, 5),
        range(256, 2047),
    ];
    if deep {
        r.extend([
            val(p - 1),
            val(2048),
            val(128),
            mask(0x55),
            mask(0xaa),
            mask(0x100),
            mask(0x7fff_ff00),
            range(0, 2047),
            range(0, 2048),
            range(1, 255),
            range(2048, 5000),
            range(p - 3, 2),
            range(200, p - 1),
        ]);
    }
    r
}

fn grid(p: u64, deep: bool) -> Vec<u64> {
    let mut s: BTreeSet<u64> = [0, 1, 2, 3, 5, 127, 128, 200, 254, 255, 256, 257, 300, 511, 512, 2046, 2047, 2048, 2049, 4095, 4096].into();
    for k in 0..30 {
        for d in [-1i64, 0, 1] {
            if deep || k % 4 == 1 || k > 23 {
                s.insert(((1i64 << k) + d).max(0) as u64);
            }
        }
    }
    for k in [1, 2, 3, 256] {
        s.insert(p - k);
    }
    s.insert((p - 1) / 2);
    s.insert(p.div_ceil(2));
    s.into_iter().filter(|x| *x < p).collect()
}

struct Vm<T: FieldElement> {
    name: String,
    handler: OpenVmBusInteractionHandler<T>,
    buses: Vec<(u64, Bus)>,
    p: u64,
}

impl<T: FieldElement> Vm<T> {
    fn bus(&self, id: u64) -> Bus {
        self.buses.iter().find(|(i, _)| *i == id).unwrap().1
    }
    fn id(&self, f: impl Fn(Bus) -> bool) -> u64 {
        self.buses.iter().find(|(_, b)| f(*b)).unwrap().0
    }
}

fn vms<T: FieldElement>(name: &str) -> Vec<Vm<T>> {
    let p = prime::<T>();
    let default = vec![
        (0, Bus::Exec),
        (1, Bus::Mem),
        (2, Bus::Pc),
        (3, Bus::Var),
        (6, Bus::Bit),
        (7, Bus::Tuple(256, 2048)),
    ];
    let other = vec![
        (5, Bus::Exec),
        (7, Bus::Mem),
        (0, Bus::Pc),
        (1, Bus::Var),
        (2, Bus::Bit),
        (9, Bus::Tuple(256, 4096)),
    ];
    let map = |l: &[(u64, Bus)]| {
        BusMap::from_id_type_pairs(l.iter().map(|(i, b)| {
            (
                *i,
                match b {
                    Bus::Exec => BusType::ExecutionBridge,
                    Bus::Mem => BusType::Memory,
                    Bus::Pc => BusType::PcLookup,
                    Bus::Var => BusType::Other(OpenVmBusType::VariableRangeChecker),
                    Bus::Bit => BusType::Other(OpenVmBusType::BitwiseLookup),
                    Bus::Tuple(a, b) => BusType::Other(OpenVmBusType::TupleRangeChecker([*a as u32, *b as u32])),
                },
            )
        }))
    };
    vec![
        Vm { name: format!("{name} default"), handler: OpenVmBusInteractionHandler::new(default_openvm_bus_map()), buses: default, p },
        Vm { name: format!("{name} other"), handler: OpenVmBusInteractionHandler::new(map(&other)), buses: other, p },
    ]
}

/// One call of the handler compared with the tuples the bus accepts. `rows` yields
/// every accepted tuple that lies within the given ranges.
fn judge<T: FieldElement>(
    c: &Check,
    vm: &Vm<T>,
    bi: BusInteraction<RangeConstraint<T>>,
    rows: &mut dyn FnMut(&mut dyn FnMut(&[u64]) -> bool),
) {
    let shown = format!("{}: {bi}", vm.name);
    let arity = bi.payload.len();
    let plain = vm.handler.handle_bus_interaction(bi.clone());
    let checked = vm.handler.handle_bus_interaction_checked(bi.clone());
    c.eval(2);
    if plain.payload.len() != arity {
        c.violation("arity", format!("{shown} became {plain}"));
        return;
    }
    let mut refined = vec![plain.payload.iter().map(R::of).collect::<Vec<_>>()];
    let reported = match &checked {
        Ok(b) => {
            refined.push(b.payload.iter().map(R::of).collect());
            false
        }
        Err(_) => true,
    };
    if reported {
        c.count("violations reported by the handler", 1);
    }
    let mut n = 0;
    rows(&mut |t| {
        n += 1;
        if reported {
            c.violation("false alarm", format!("{shown}: reported as violating the bus, but {t:?} is accepted"));
            return false;
        }
        for r in &refined {
            if let Some(i) = (0..arity).find(|i| !r[*i].has(t[*i])) {
                c.violation("tuple excluded", format!("{shown}: accepted tuple {t:?} excluded by field {i} of {plain}"));
                return false;
            }
        }
        true
    });
    if n > 0 {
        c.nontrivial(1);
    }
    c.count("accepted tuples compared", n);
}

fn interaction<T: FieldElement>(id: u64, mult: RangeConstraint<T>, payload: Vec<RangeConstraint<T>>) -> BusInteraction<RangeConstraint<T>> {
    BusInteraction { bus_id: RangeConstraint::from_value(T::from(id)), multiplicity: mult, payload }
}

fn refinement<T: FieldElement>(c: &Check, name: &str) {
    let p = prime::<T>();
    let deep = thorough();
    let alphabet: Vec<RangeConstraint<T>> = rc_alphabet(p, deep);
    let rs: Vec<R> = alphabet.iter().map(R::of).collect();
    let g = grid(p, deep);
    let one = RangeConstraint::from_value(T::one());
    for vm in vms::<T>(name) {
        // bitwise: every pair of bytes
        let id = vm.id(|b| b == Bus::Bit);
        let ops: Vec<RangeConstraint<T>> = vec![
            RangeConstraint::from_value(T::zero()),
            RangeConstraint::from_value(T::one()),
            RangeConstraint::from_mask(1u64),
            RangeConstraint::default(),
            RangeConstraint::from_range(T::one(), T::from(5u64)),
            RangeConstraint::from_range(T::from(p - 1), T::zero()),
        ];
        let bytes: Vec<Vec<u64>> = rs.iter().map(|r| (0..256).filter(|x| r.has(*x)).collect()).collect();
        let n = alphabet.len();
        (0..n * n * n).into_par_iter().for_each(|i| {
            let (i, j, k) = (i % n, i / n % n, i / n / n);
            for op in &ops {
                let ro = R::of(op);
                judge(
                    c,
                    &vm,
                    interaction(id, one, vec![alphabet[i], alphabet[j], alphabet[k], *op]),
                    &mut |f| {
                        for o in 0..2u64 {
                            if !ro.has(o) {
                                continue;
                            }
                            for x in &bytes[i] {
                                for y in &bytes[j] {
                                    let z = if o == 0 { 0 } else { x ^ y };
                                    if rs[k].has(z) && !f(&[*x, *y, z, o]) {
                                        return;
                                    }
                                }
                            }
                        }
                    },
                );
            }
        });
        // tuple range checker: every pair of accepted values
        let id = vm.id(|b| matches!(b, Bus::Tuple(..)));
        let Bus::Tuple(ta, tb) = vm.bus(id) else { unreachable!() };
        (0..n * n).into_par_iter().for_each(|i| {
            let (i, j) = (i % n, i / n);
            judge(c, &vm, interaction(id, one, vec![alphabet[i], alphabet[j]]), &mut |f| {
                for x in (0..ta).filter(|x| rs[i].has(*x)) {
                    for y in (0..tb).filter(|y| rs[j].has(*y)) {
                        if !f(&[x, y]) {
                            return;
                        }
                    }
                }
            });
        });
        // variable range checker: every number of bits, grid of values
        let id = vm.id(|b| b == Bus::Var);
        let bits: Vec<RangeConstraint<T>> = (0..=27u64)
            .map(|b| RangeConstraint::from_value(T::from(b)))
            .chain([
                RangeConstraint::default(),
                RangeConstraint::from_mask(1u64),
                RangeConstraint::from_mask(0x1fu64),
                RangeConstraint::from_range(T::from(24u64), T::from(30u64)),
                RangeConstraint::from_range(T::from(26u64), T::from(30u64)),
                RangeConstraint::from_range(T::from(p - 2), T::from(3u64)),
                RangeConstraint::from_value(T::from(64u64)),
                RangeConstraint::from_value(T::from(p - 1)),
            ])
            .collect();
        let xs: Vec<RangeConstraint<T>> = alphabet
            .iter()
            .copied()
            .chain((0..28).map(|k| RangeConstraint::from_value(T::from(1u64 << k))))
            .chain((0..28).map(|k| RangeConstraint::from_range(T::from(1u64 << k), T::from((1u64 << k) + 9))))
            .collect();
        xs.par_iter().for_each(|x| {
            for b in &bits {
                let (rx, rb) = (R::of(x), R::of(b));
                judge(c, &vm, interaction(id, one, vec![*x, *b]), &mut |f| {
                    for nb in (0..=25u64).filter(|v| rb.has(*v)) {
                        for v in g.iter().filter(|v| rx.has(**v) && **v < 1 << nb) {
                            if !f(&[*v, nb]) {
                                return;
                            }
                        }
                    }
                });
            }
        });
        // memory, execution, program counter: grid
        let mults: Vec<RangeConstraint<T>> = vec![
            RangeConstraint::from_value(-T::one()),
            RangeConstraint::from_value(T::one()),
            RangeConstraint::from_value(T::zero()),
            RangeConstraint::from_value(T::from(2u64)),
            RangeConstraint::default(),
            RangeConstraint::from_mask(1u64),
            RangeConstraint::from_range(T::from(p - 1), T::zero()),
        ];
        let id = vm.id(|b| b == Bus::Mem);
        let spaces: Vec<RangeConstraint<T>> = (0..4u64)
            .map(|a| RangeConstraint::from_value(T::from(a)))
            .chain([
                RangeConstraint::from_value(T::from(257u64)),
                RangeConstraint::from_range(T::one(), T::from(2u64)),
                RangeConstraint::from_range(T::one(), T::from(3u64)),
                RangeConstraint::from_mask(1u64),
                RangeConstraint::default(),
            ])
            .collect();
        let ptrs: Vec<RangeConstraint<T>> = vec![
            RangeConstraint::from_value(T::zero()),
            RangeConstraint::from_value(T::from(4u64)),
            RangeConstraint::from_value(T::one()),
            RangeConstraint::from_mask(0xfcu64),
            RangeConstraint::default(),
            RangeConstraint::from_range(T::from(4u64), T::from(8u64)),
        ];
        let small = [0u64, 1, 4, 255, 256, p - 1];
        for nd in [1usize, 2, 4] {
            let datas: Vec<Vec<RangeConstraint<T>>> = if nd == 1 {
                alphabet.iter().map(|r| vec![*r]).collect()
            } else {
                tuples(tier(4, 6), nd)
                    .map(|t| t.iter().map(|i| [alphabet[0], alphabet[1], alphabet[5], alphabet[7], alphabet[11], alphabet[3]][*i]).collect())
                    .collect()
            };
            datas.par_iter().for_each(|d| {
                for (sp, ptr, m) in itertools::iproduct!(&spaces, &ptrs, &mults) {
                    let mut payload = vec![*sp, *ptr];
                    payload.extend(d);
                    payload.push(RangeConstraint::default());
                    let r: Vec<R> = payload.iter().map(R::of).collect();
                    let rm = R::of(m);
                    judge(c, &vm, interaction(id, *m, payload), &mut |f| {
                        for mv in [0, 1, 2, p - 1].into_iter().filter(|x| rm.has(*x)) {
                            for (a, q) in itertools::iproduct!([0u64, 1, 2, 3, 257], small) {
                                if !r[0].has(a) || !r[1].has(q) {
                                    continue;
                                }
                                for dv in small.iter().filter(|x| (2..2 + nd).all(|i| r[i].has(**x))) {
                                    let mut t = vec![a, q];
                                    t.extend(std::iter::repeat_n(*dv, nd));
                                    t.push(77);
                                    if accepts(Bus::Mem, p, mv, &t) && !f(&t) {
                                        return;
                                    }
                                }
                                // one limb at a time
                                for l in 0..nd {
                                    for dv in small.iter().filter(|x| r[2 + l].has(**x)) {
                                        let mut t = vec![a, q];
                                        for o in 0..nd {
                                            let w = if o == l { Some(*dv) } else { small.iter().copied().find(|x| r[2 + o].has(*x) && *x < 256) };
                                            let Some(w) = w else { break };
                                            t.push(w);
                                        }
                                        t.push(p - 5);
                                        if t.len() == nd + 3 && accepts(Bus::Mem, p, mv, &t) && !f(&t) {
                                            return;
                                        }
                                    }
                                }
                            }
                        }
                    });
                }
            });
        }
        for (id, bus) in &vm.buses {
            let len = match bus {
                Bus::Exec => 2,
                Bus::Pc => 3,
                Bus::Var | Bus::Tuple(..) => 2,
                Bus::Bit => 4,
                Bus::Mem => continue,
            };
            // conditional interactions, and the buses that accept anything
            for t in tuples(tier(4, 6), len) {
                let payload: Vec<_> = t.iter().map(|i| [alphabet[0], alphabet[1], alphabet[6], alphabet[11], alphabet[7], alphabet[2]][*i]).collect();
                let r: Vec<R> = payload.iter().map(R::of).collect();
                for m in &mults {
                    let rm = R::of(m);
                    if *bus == Bus::Bit && payload[3].try_to_single_value().is_some_and(|o| v(o) > 1) {
                        continue;
                    }
                    judge(c, &vm, interaction(*id, *m, payload.clone()), &mut |f| {
                        let vals: Vec<Vec<u64>> = r.iter().map(|r| small.iter().copied().filter(|x| r.has(*x)).collect()).collect();
                        for mv in [0, 1, 2, p - 1].into_iter().filter(|x| rm.has(*x)) {
                            for idx in tuples(6, len) {
                                if idx.iter().zip(&vals).any(|(i, v)| *i >= v.len()) {
                                    continue;
                                }
                                let t: Vec<u64> = idx.iter().zip(&vals).map(|(i, v)| v[*i]).collect();
                                if accepts(*bus, p, mv, &t) && !f(&t) {
                                    return;
                                }
                            }
                        }
                    });
                }
            }
            // unknown bus
            let payload = vec![alphabet[11]; len];
            let b = BusInteraction { bus_id: RangeConstraint::from_range(T::zero(), T::from(9u64)), multiplicity: one, payload };
            judge(c, &vm, b, &mut |f| {
                f(&vec![255; len]);
                f(&vec![256; len]);
            });
        }
        for (id, bus) in &vm.buses {
            c.eval(1);
            if vm.handler.is_stateful(T::from(*id)) != matches!(bus, Bus::Exec | Bus::Mem) {
                c.violation("stateful", format!("{}: bus {id} {bus:?}", vm.name));
            }
        }
    }
}

type GE<T> = GroupedExpression<T, String>;

/// Expressions over x, y, o, with their meaning.
fn exprs<T: FieldElement>() -> Vec<(GE<T>, fn(u64, u64, u64) -> i128)> {
    let x = || GroupedExpression::from_unknown_variable("x".to_string());
    let y = || GroupedExpression::from_unknown_variable("y".to_string());
    let o = || GroupedExpression::from_unknown_variable("o".to_string());
    let n = |v: u64| GroupedExpression::from_number(T::from(v));
    vec![
        (x(), |x, _, _| x as i128),
        (y(), |_, y, _| y as i128),
        (o(), |_, _, o| o as i128),
        (n(0), |_, _, _| 0),
        (n(1), |_, _, _| 1),
        (n(8), |_, _, _| 8),
        (n(255), |_, _, _| 255),
        (n(256), |_, _, _| 256),
        (x() + y(), |x, y, _| x as i128 + y as i128),
        (x() * n(2) + n(1), |x, _, _| 2 * x as i128 + 1),
        (n(1) - x(), |x, _, _| 1 - x as i128),
        (n(11), |_, _, _| 11),
        (n(25), |_, _, _| 25),
        (n(0) - n(1), |_, _, _| -1),
        (n(26), |_, _, _| 26),
        (x() * y(), |x, y, _| x as i128 * y as i128),
    ]
}

fn pure<T: FieldElement>(c: &Check, name: &str) {
    let p = prime::<T>();
    let es = exprs::<T>();
    let g: Vec<u64> = grid(p, thorough());
    let og = [0u64, 1, 2, 3, 255, p - 1];
    for vm in vms::<T>(name) {
        let eval = |f: fn(u64, u64, u64) -> i128, a: &(u64, u64, u64)| f(a.0, a.1, a.2).rem_euclid(p as i128) as u64;
        for (id, bus) in &vm.buses {
            let (len, k) = match bus {
                Bus::Exec | Bus::Var | Bus::Tuple(..) => (2, es.len()),
                Bus::Pc => (3, 4),
                Bus::Mem => (4, 5),
                Bus::Bit => (4, tier(11, es.len())),
            };
            tuples(k, len).collect::<Vec<_>>().par_iter().for_each(|t| {
                let bi = BusInteraction {
                    bus_id: GroupedExpression::from_number(T::from(*id)),
                    multiplicity: GroupedExpression::from_number(T::one()),
                    payload: t.iter().map(|i| es[*i].0.clone()).collect::<Vec<_>>(),
                };
                let Some(rcs) = vm.handler.pure_range_constraints(&bi) else {
                    c.eval(1);
                    return;
                };
                c.eval(1);
                let fs: Vec<_> = t.iter().map(|i| es[*i].1).collect();
                let mut conds = vec![];
                for (e, rc) in &rcs {
                    let Some((_, f)) = es.iter().find(|(x, _)| x == e) else {
                        c.violation("pure expression", format!("{}: {bi}: {e} is not a field", vm.name));
                        return;
                    };
                    conds.push((*f, R::of(rc)));
                }
                c.nontrivial(1);
                c.count("pure range checks", 1);
                // the variables that occur range over the grid
                let uses = |s: &str| bi.payload.iter().any(|e| e.referenced_unknown_variables().any(|v| v == s));
                let gx: &[u64] = if uses("x") { &g } else { &[0] };
                let gy: &[u64] = if uses("y") { &g } else { &[0] };
                let go: &[u64] = if uses("o") { &og } else { &[0] };
                for a in itertools::iproduct!(gx.iter().copied(), gy.iter().copied(), go.iter().copied()) {
                    let row: Vec<u64> = fs.iter().map(|f| eval(*f, &a)).collect();
                    let acc = accepts(*bus, p, 1, &row);
                    let rc = conds.iter().all(|(f, r)| r.has(eval(*f, &a)));
                    if acc != rc {
                        c.violation(
                            &format!("pure {bus:?} {}", if acc { "too strict" } else { "too weak" }),
                            format!("{}: {bi} {row:?} accepted={acc} ranges allow={rc}", vm.name),
                        );
                        return;
                    }
                }
            });
        }
    }
}

/// Requests for range checks of up to four expressions.
fn requests<T: FieldElement>(c: &Check, name: &str) {
    let p = prime::<T>();
    let es = exprs::<T>();
    let g = grid(p, false);
    let targets = [0usize, 1, 8, 10]; // x, y, x+y, 1-x
    for vm in vms::<T>(name) {
        let Bus::Tuple(_, tb) = vm.bus(vm.id(|b| matches!(b, Bus::Tuple(..)))) else { unreachable!() };
        let mut kinds: Vec<(RangeConstraint<T>, bool)> = vec![
            (RangeConstraint::from_mask(0xffu64), true),
            (RangeConstraint::from_range(T::zero(), T::from(tb - 1)), true),
            (RangeConstraint::from_range(T::zero(), T::from(255u64)), true),
            (RangeConstraint::from_mask(1u64), true),
            (RangeConstraint::from_value(T::zero()), true),
            (RangeConstraint::from_mask((1u64 << 25) - 1), true),
            (RangeConstraint::from_mask((1u64 << 13) - 1), true),
            (RangeConstraint::from_mask((1u64 << 26) - 1), false),
            (RangeConstraint::from_range(T::one(), T::from(255u64)), false),
            (RangeConstraint::from_value(T::one()), false),
            (RangeConstraint::from_mask(0xf0u64), false),
            (RangeConstraint::default(), false),
        ];
        if thorough() {
            kinds.extend((0..=25).filter(|b| ![0, 1, 8, 13, 25].contains(b)).map(|b| (RangeConstraint::from_mask((1u64 << b) - 1), true)));
            kinds.push((RangeConstraint::from_mask((1u64 << 29) - 1), false));
            kinds.push((RangeConstraint::from_range(T::from(p - 1), T::one()), false));
        }
        // each target gets a subset of the kinds, in some order
        let options: Vec<(usize, usize)> = targets.iter().flat_map(|t| (0..kinds.len()).map(move |k| (*t, k))).collect();
        let mut cases: Vec<Vec<(usize, usize)>> = vec![vec![]];
        for n in 1..=3 {
            cases.extend(tuples(options.len(), n).map(|t| t.into_iter().map(|i| options[i]).collect::<Vec<_>>()).filter(|l: &Vec<(usize, usize)>| {
                // with three requests, only the implementable kinds on distinct targets
                n < 3 || (l.iter().all(|(_, k)| *k < 7) && l.windows(2).all(|w| w[0] != w[1]))
            }));
        }
        // long lists of the kinds that get batched, on distinct variables
        let mut long = vec![];
        for n in 4..=tier(6, 8) {
            long.extend(tuples(4, n).map(|t| t.into_iter().map(|i| [0usize, 1, 3, 6][i]).collect::<Vec<_>>()));
        }
        let check = |req: Vec<(GE<T>, RangeConstraint<T>)>, implementable: bool, points: &mut dyn FnMut(&mut dyn FnMut(&dyn Fn(&GE<T>) -> u64) -> bool)| {
            let show = || format!("{}: {}", vm.name, req.iter().map(|(e, r)| format!("{e} in {r}")).collect::<Vec<_>>().join(", "));
            c.eval(1);
            match vm.handler.batch_make_range_constraints(req.clone()) {
                Err(_) => {
                    if implementable {
                        c.violation("request refused", format!("{}: each range can be checked on some bus", show()));
                    }
                    c.count("requests refused", 1);
                }
                Ok(bis) => {
                    c.nontrivial(1);
                    let conds: Vec<(&GE<T>, R)> = req.iter().map(|(e, r)| (e, R::of(r))).collect();
                    for b in &bis {
                        if b.multiplicity.try_to_number() != Some(T::one()) {
                            c.violation("multiplicity", format!("{}: {b}", show()));
                        }
                    }
                    let buses: Vec<Bus> = bis.iter().map(|b| vm.bus(v(b.bus_id.try_to_number().unwrap()))).collect();
                    points(&mut |ev| {
                        let want = conds.iter().all(|(e, r)| r.has(ev(e)));
                        let got = bis.iter().zip(&buses).all(|(b, bus)| {
                            let row: Vec<u64> = b.payload.iter().map(ev).collect();
                            accepts(*bus, p, 1, &row)
                        });
                        if want != got {
                            c.violation(
                                if got { "request too weak" } else { "request too strict" },
                                format!("{}: {} differ", show(), bis.iter().map(|b| b.to_string()).collect::<Vec<_>>().join("; ")),
                            );
                        }
                        want == got
                    });
                }
            }
        };
        let coarse: Vec<u64> = [0, 1, 2, 254, 255, 256, 2047, 2048, 8191, 8192, (1 << 25) - 1, 1 << 25, p - 1, p - 255].into();
        cases.par_iter().for_each(|l| {
            let g = if l.len() < 3 { &g } else { &coarse };
            let req: Vec<_> = l.iter().map(|(t, k)| (es[*t].0.clone(), kinds[*k].0)).collect();
            check(req, l.iter().all(|(_, k)| kinds[*k].1), &mut |f| {
                for x in g {
                    for y in if l.iter().any(|(t, _)| *t == 1 || *t == 8) { &g[..] } else { &g[..1] } {
                        let ev = |e: &GE<T>| -> u64 {
                            if let Some(n) = e.try_to_number() {
                                return v(n);
                            }
                            let f = es.iter().find(|(q, _)| q == e).unwrap().1;
                            f(*x, *y, 0).rem_euclid(p as i128) as u64
                        };
                        if !f(&ev) {
                            return;
                        }
                    }
                }
            });
        });
        long.par_iter().for_each(|l| {
            let req: Vec<_> = l
                .iter()
                .enumerate()
                .map(|(i, k)| (GroupedExpression::from_unknown_variable(format!("v{i}")), kinds[*k].0))
                .collect();
            // every variable in turn runs through the grid, the others are zero
            check(req, true, &mut |f| {
                for i in 0..l.len() {
                    for x in &g {
                        let name = format!("v{i}");
                        let ev = |e: &GE<T>| -> u64 {
                            match e.try_to_number() {
                                Some(n) => v(n),
                                None => {
                                    if e.referenced_unknown_variables().next().unwrap() == &name {
                                        *x
                                    } else {
                                        0
                                    }
                                }
                            }
                        };
                        if !f(&ev) {
                            return;
                        }
                    }
                }
            });
        });
    }
}

fn field<T: FieldElement>(c: &Check, name: &str) {
    for (what, f) in [("refinement", refinement::<T> as fn(&Check, &str)), ("pure range checks", pure::<T>), ("requests", requests::<T>)] {
        c.batch(&format!("{name} {what}"), || f(c, name));
    }
}

fn main() {
    let c = Check::new(
        "C10",
        "exploration",
        "every combination of field ranges from an alphabet on every bus against all tuples the bus accepts; every payload of expressions from an alphabet; every request of up to three ranges and lists of batched kinds",
        &["an operation other than 0 or 1 on the bitwise bus is not offered as a known value"],
    );
    field::<BabyBearField>(&c, "BabyBear");
    field::<KoalaBearField>(&c, "KoalaBear");
    if thorough() {
        field::<Mersenne31Field>(&c, "Mersenne31");
        field::<GoldilocksField>(&c, "Goldilocks");
    }
    c.sample(json!({"bus": "bitwise", "fields": ["[0, 255] & 0xff", "[3, 7]", "any", "[0, 1]"], "compared with": "all (x, y, z, op) with z = x xor y or z = 0"}));
    c.finish()
}
