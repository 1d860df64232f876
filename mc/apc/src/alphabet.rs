//! Alphabets of constraints, lookups and stateful interactions.
use crate::*;
use powdr_autoprecompiles::bus_map::{BusMap, BusType};
use std::cell::RefCell;

pub type Item<const P: u32, const NB: usize> = Result<GE<P, NB>, BI<P, NB>>;

pub fn v<const P: u32, const NB: usize>(i: u32) -> GE<P, NB> {
    var(i)
}
pub fn k<const P: u32, const NB: usize>(i: i64) -> GE<P, NB> {
    num(i)
}

pub fn constraints<const P: u32, const NB: usize>(n: u32) -> Vec<GE<P, NB>> {
    let (x, y, z) = (|| v::<P, NB>(0), || v::<P, NB>(1), || v::<P, NB>(2));
    let s = |e: GE<P, NB>, c: i64| e * Tiny::<P, NB>::new(c);
    let mut a = vec![
        x() * (x() - k(1)),
        y() * (y() - k(1)),
        z() * (z() - k(1)),
        x() - y(),
        x() - k(2),
        y() - k(1),
        x() + s(y(), 2) - z(),
        s(x(), 2) - y() - k(1),
        x() + y() - k(1),
        x() + y() + z() - k(1),
        x() * y() - z(),
        x() * y(),
        (x() - k(1)) * z(),
        (x() - y()) * z(),
        x() * y() - k(1),
        x() * z() - k(2),
        (x() - y()) * (x() - y() - k(4)),
        (y() - z()) * (y() - z() - k(2)),
        x() * x() - y(),
        x() * y() * z() - k(1),
        x() * x() * (y() - k(1)),
        (x() + y()) * (z() - k(1)) - x(),
        y() * z() - x() * z(),
        x() * (y() - z()) * (y() - k(2)),
    ];
    if n > 3 {
        let w = || v::<P, NB>(3);
        a.extend([w() * (w() - k(1)), x() * z() + y() * w() - k(1), w() - x() * y(), x() + s(y(), 2) - w(), (x() - z()) * w() - y()]);
    }
    a
}

pub fn lookups<const P: u32, const NB: usize>(n: u32) -> Vec<BI<P, NB>> {
    let (x, y, z) = (|| v::<P, NB>(0), || v::<P, NB>(1), || v::<P, NB>(2));
    let s = |e: GE<P, NB>, c: i64| e * Tiny::<P, NB>::new(c);
    let l = |id: u32, p: Vec<GE<P, NB>>| bus(id as i64, k(1), p);
    let mut a = vec![
        l(BIT, vec![x()]),
        l(BIT, vec![y()]),
        l(PAIR, vec![x(), y()]),
        l(PAIR, vec![z(), k(0)]),
        l(PAIR, vec![y(), y()]),
        l(PAIR, vec![x() - y(), z()]),
        l(PAIR, vec![s(x(), 2) + k(1), k(3)]),
        l(PAIR, vec![x() * y(), k(0)]),
        l(VARBITS, vec![x(), k(1)]),
        l(VARBITS, vec![y(), k(2)]),
        l(VARBITS, vec![x(), y()]),
        l(VARBITS, vec![z(), k(0)]),
        l(VARBITS, vec![x() + y(), k(1)]),
        l(VARBITS, vec![x() * y() + k(4), k(2)]),
        l(XOR, vec![x(), y(), z()]),
        l(XOR, vec![x(), x(), z()]),
        l(XOR, vec![x(), y(), k(1)]),
        l(XOR, vec![x(), k(3), y()]),
        l(XOR, vec![x(), z(), y() + k(1)]),
        bus(BIT as i64, y(), vec![x()]),
        bus(PAIR as i64, k(2), vec![z(), y()]),
        bus(PAIR as i64, y() - k(1), vec![x(), z()]),
        bus(PAIR as i64, k(0), vec![x(), x()]),
        bus(XOR as i64, z(), vec![x(), y(), k(1)]),
        bus(XOR as i64, k(2), vec![x(), y(), z()]),
        bus(VARBITS as i64, x() - z(), vec![y(), k(1)]),
    ];
    {
        a.extend([
            l(TUPLE, vec![x(), y()]),
            l(TUPLE, vec![z(), x() + y()]),
            l(NOT, vec![x(), y()]),
            l(NOT, vec![x() + y(), z()]),
            l(ODD, vec![x(), y()]),
            l(ODD, vec![y(), z()]),
            l(ODD, vec![x(), k(1)]),
            l(ONETWO, vec![x()]),
            l(ONETWO, vec![y() - z()]),
        ]);
    }
    if P > AND {
        a.extend([l(OR, vec![x(), y(), z()]), l(AND, vec![x(), y(), z()]), l(AND, vec![x(), z(), x()])]);
    }
    if n > 3 {
        let w = || v::<P, NB>(3);
        a.extend([l(BIT, vec![w()]), l(PAIR, vec![w(), z()]), l(XOR, vec![x(), y(), w()])]);
    }
    a
}

pub fn stateful<const P: u32, const NB: usize>() -> Vec<Vec<BI<P, NB>>> {
    let (x, y, z) = (|| v::<P, NB>(0), || v::<P, NB>(1), || v::<P, NB>(2));
    let o = |m: GE<P, NB>, p: Vec<GE<P, NB>>| bus(OUT as i64, m, p);
    vec![
        vec![o(k(1), vec![y()])],
        vec![o(k(1), vec![x(), y()])],
        vec![o(x(), vec![y()])],
        vec![o(k(-1), vec![x()]), o(k(1), vec![x() + z()])],
        vec![o(k(1), vec![z(), x() * y()])],
        vec![o(z(), vec![k(1)]), o(k(1), vec![x() - y()])],
        vec![],
    ]
}

pub fn map(memory: bool, execution: bool) -> BusMap<u8> {
    let mut m = vec![(PC as u64, BusType::PcLookup)];
    if memory {
        m.push((MEM as u64, BusType::Memory));
    }
    if execution {
        m.push((EXEC as u64, BusType::ExecutionBridge));
    }
    BusMap::from_id_type_pairs(m)
}

pub fn cached<const P: u32, const NB: usize>(n: usize, f: impl FnOnce(&mut Cache<P, NB>)) {
    thread_local! { static CACHES: RefCell<HashMap<(u32, usize), (usize, Box<dyn std::any::Any>)>> = RefCell::new(HashMap::new()); }
    CACHES.with(|m| {
        let mut m = m.borrow_mut();
        let e = m.entry((P, n)).or_insert_with(|| (0, Box::new(Cache::<P, NB>::default())));
        e.0 += 1;
        if e.0 > 60 {
            *e = (0, Box::new(Cache::<P, NB>::default()));
        }
        f(e.1.downcast_mut::<Cache<P, NB>>().unwrap())
    });
}

/// Interactions with memory and the execution bus, as a block of instructions makes them.
pub fn histories<const P: u32, const NB: usize>(n: u32) -> Vec<Vec<BI<P, NB>>> {
    let (x, y, z) = (|| v::<P, NB>(0), || v::<P, NB>(1), || v::<P, NB>(2));
    let recv = |s: i64, a: GE<P, NB>, d: GE<P, NB>, t: i64| bus(MEM as i64, k(-1), vec![k(s), a, d, k(t)]);
    let send = |s: i64, a: GE<P, NB>, d: GE<P, NB>, t: i64| bus(MEM as i64, k(1), vec![k(s), a, d, k(t)]);
    let at = |m: i64, pc: GE<P, NB>, t: GE<P, NB>| bus(EXEC as i64, k(m), vec![pc, t]);
    let mut r = vec![
        // the same register three times
        vec![recv(1, k(0), x(), 0), send(1, k(0), y(), 1), recv(1, k(0), z(), 1), send(1, k(0), x(), 2)],
        // the same unknown address twice
        vec![recv(2, x(), y(), 0), send(2, x(), y() + k(1), 1), recv(2, x(), z(), 1), send(2, x(), z(), 2)],
        // addresses that may or may not be the same
        vec![recv(2, k(0), y(), 0), send(2, k(0), y(), 1), recv(2, x(), z(), 0), send(2, x(), k(1), 2)],
        vec![recv(2, x(), y(), 0), send(2, x(), k(2), 1), recv(2, z(), y(), 0), send(2, z(), k(1), 1)],
        vec![recv(2, x(), y(), 0), send(2, x(), k(2), 1), recv(2, z(), y(), 1), send(2, z(), k(1), 1)],
        vec![recv(2, x(), y(), 0), send(2, x(), z(), 1), recv(2, x() + k(1), z(), 0), send(2, x() + k(1), y(), 2)],
        // two registers
        vec![
            recv(1, k(0), x(), 0),
            send(1, k(0), y(), 1),
            recv(1, k(1), z(), 0),
            send(1, k(1), x() + y(), 1),
            recv(1, k(0), x(), 1),
            send(1, k(0), k(3), 2),
        ],
        // two instructions
        vec![at(-1, k(0), x()), at(1, k(4), x() + k(1)), at(-1, k(4), y()), at(1, z(), y() + k(1))],
        vec![at(-1, k(0), x()), at(1, y() + k(1), x() + k(1)), at(-1, z(), x() + k(1)), at(1, k(8), x() + k(2))],
        // both
        vec![
            at(-1, k(0), x()),
            recv(1, k(0), y(), 0),
            send(1, k(0), z(), 1),
            at(1, k(1), x() + k(1)),
            at(-1, k(1), x() + k(1)),
            recv(1, k(0), y(), 1),
            send(1, k(0), z() + k(1), 2),
            at(1, z(), x() + k(2)),
        ],
    ];
    if n > 3 {
        let w = || v::<P, NB>(3);
        r.extend([
            vec![recv(1, k(0), x(), 0), send(1, k(0), x(), 1), recv(1, k(0), y(), 1), send(1, k(0), w(), 2), recv(1, k(1), z(), 0), send(1, k(1), w(), 2)],
            vec![recv(2, x(), y(), 0), send(2, x(), y(), 1), recv(2, z(), w(), 1), send(2, z(), y() + w(), 2)],
        ]);
    }
    r
}

/// Whether a machine's memory and execution bus interactions make a history at this
/// assignment: what is received from a cell is what was last sent to it.
pub fn is_history<const P: u32, const NB: usize>(bs: &[BI<P, NB>], a: &[Tiny<P, NB>]) -> bool {
    let mut cells: BTreeMap<Vec<u32>, Option<Vec<u32>>> = BTreeMap::new();
    for b in bs {
        let (id, m, p) = eval_bus(b, a);
        let (cell, content) = if id == MEM { (p[..2].to_vec(), p[2..].to_vec()) } else { (vec![], p) };
        let e = cells.get(&cell).cloned();
        if m == 1 {
            if matches!(e, Some(Some(_))) || e.is_none() {
                return false;
            }
            cells.insert(cell, Some(content));
        } else {
            match e {
                Some(None) => return false,
                Some(Some(c)) if c != content => return false,
                _ => {}
            }
            cells.insert(cell, None);
        }
    }
    true
}

pub fn items<const P: u32, const NB: usize>(n: u32) -> Vec<Item<P, NB>> {
    let mut items: Vec<Item<P, NB>> = constraints(n).into_iter().map(Ok).collect();
    items.extend(lookups(n).into_iter().map(Err));
    items
}

