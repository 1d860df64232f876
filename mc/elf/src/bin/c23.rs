//! C23: small RV64 images through the real scanner. All control flow of each image
//! is explored from its encodings; every place that can be reached by a direct jump,
//! a taken branch or a jump through the AUIPC just before must be reported, and
//! nothing else except the entry and the symbols.
use mc_core::rayon::prelude::*;
use mc_core::serde_json::json;
use mc_core::{multisets, quiet_catch, thorough, tier, tuples, Check};
use mc_elf::*;
use powdr_riscv_elf::rv64::{compute_jumpdests, compute_jumpdests_from_buffer, Rv64Labels};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// What an instruction does to the control flow.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Flow {
    Jump(i64),
    Branch(i64),
    /// register, offset
    Indirect(u32, i64),
    /// register, offset
    Auipc(u32, i64),
    Other,
}

fn flow(w: u32) -> Flow {
    let bit = |k: u32| (w >> k) as i64 & 1;
    let bits = |hi: u32, lo: u32| (w >> lo) as i64 & ((1 << (hi - lo + 1)) - 1);
    match w & 0x7f {
        0x6f => Flow::Jump((bits(30, 21) << 1) + (bit(20) << 11) + (bits(19, 12) << 12) - (bit(31) << 20)),
        0x63 => Flow::Branch((bits(11, 8) << 1) + (bits(30, 25) << 5) + (bit(7) << 11) - (bit(31) << 12)),
        0x67 => Flow::Indirect(bits(19, 15) as u32, bits(30, 20) - (bit(31) << 11)),
        0x17 => Flow::Auipc(bits(11, 7) as u32, (w & 0xffff_f000) as i32 as i64),
        _ => Flow::Other,
    }
}

struct Seen {
    /// where it lands, and from where
    jumps: BTreeMap<u64, BTreeSet<u64>>,
    /// these may be reported too
    gray: BTreeSet<u64>,
    states: u64,
    transitions: u64,
}

/// A state is an address and the register with a known value, if any.
fn explore(segments: &[(u64, Vec<u32>)]) -> Seen {
    let mut code: BTreeMap<u64, u32> = BTreeMap::new();
    for (base, words) in segments {
        for (k, w) in words.iter().enumerate() {
            code.insert(base + 4 * k as u64, *w);
        }
    }
    let mut s = Seen { jumps: BTreeMap::new(), gray: BTreeSet::new(), states: 0, transitions: 0 };
    let mut todo: Vec<(u64, Option<(u32, u64)>)> = code.keys().map(|a| (*a, None)).collect();
    let mut done: BTreeSet<(u64, Option<(u32, u64)>)> = todo.iter().copied().collect();
    while let Some((pc, known)) = todo.pop() {
        s.states += 1;
        let Some(w) = code.get(&pc) else { continue };
        let mut next = vec![];
        let mut land = |t: u64, s: &mut Seen| {
            s.jumps.entry(t).or_default().insert(pc);
            (t, None)
        };
        match flow(*w) {
            Flow::Jump(o) => next.push(land(pc.wrapping_add(o as u64), &mut s)),
            Flow::Branch(o) => {
                next.push(land(pc.wrapping_add(o as u64), &mut s));
                next.push((pc + 4, None));
            }
            Flow::Indirect(r, o) => match known {
                Some((k, v)) if k == r => {
                    // the lowest bit is cleared
                    next.push(land(v.wrapping_add(o as u64) & !1, &mut s));
                }
                _ if r == 0 => {
                    s.gray.insert(o as u64 & !1);
                }
                _ => {}
            },
            Flow::Auipc(r, o) => next.push((pc + 4, (r != 0).then_some((r, pc.wrapping_add(o as u64))))),
            Flow::Other => next.push((pc + 4, None)),
        }
        for n in next {
            s.transitions += 1;
            if done.insert(n) {
                todo.push(n);
            }
        }
    }
    s
}

fn image(segments: &[(u64, Vec<u32>)], entry: u64) -> Image {
    Image {
        wide: true,
        entry,
        segments: segments.iter().map(|(a, w)| Seg::text(*a, w.iter().flat_map(|w| w.to_le_bytes()).collect())).collect(),
        ..Default::default()
    }
}

fn compare(c: &Arc<Check>, img: &Image, segments: &[(u64, Vec<u32>)], got: &Rv64Labels, show: &dyn Fn() -> String) {
    let s = explore(segments);
    c.states(s.states);
    c.transitions(s.transitions);
    if !s.jumps.is_empty() {
        c.nontrivial(1);
    }
    let in_text = |a: u64| img.segments.iter().any(|s| s.exec && (s.addr..s.addr + s.size).contains(&a));
    let mut syms: Vec<(u64, String)> = img.symbols.iter().filter(|s| in_text(s.1)).map(|s| (s.1, s.0.clone())).collect();
    let mut named = got.symbols.clone();
    syms.sort();
    named.sort();
    if named != syms {
        c.violation("symbols", format!("{}: {named:x?} instead of {syms:x?}", show()));
    }
    let labels: BTreeSet<u64> = syms.iter().map(|s| s.0).collect();
    let must: BTreeSet<u64> = s.jumps.keys().chain(&labels).chain([&img.entry]).copied().collect();
    if let Some(t) = must.iter().find(|t| !got.jumpdests.contains(t)) {
        c.violation("missing", format!("{}: {t:x} is not among {:x?}", show(), got.jumpdests));
    }
    if let Some(t) = got.jumpdests.iter().find(|t| !must.contains(t) && !s.gray.contains(t)) {
        c.violation("no destination", format!("{}: {t:x} is reported, not among {must:x?}", show()));
    }
    if got.entry_point != img.entry {
        c.violation("entry", format!("{}: {:x}", show(), got.entry_point));
    }
    let base = img.segments.iter().filter(|s| s.exec).map(|s| s.addr).min();
    if base.is_some_and(|b| b != got.pc_base) {
        c.violation("base", format!("{}: {:x}", show(), got.pc_base));
    }
    // where each comes from, for those without symbol
    for (t, from) in &s.jumps {
        let info: Vec<u64> = got.jumpdests_with_debug_info.get(t).map(|v| v.iter().map(|j| j.from_addr).collect()).unwrap_or_default();
        let want: Vec<u64> = if labels.contains(t) { vec![] } else { from.iter().copied().collect() };
        let mut info2 = info.clone();
        info2.sort();
        if info2 != want {
            c.violation("origin", format!("{}: {t:x} comes from {info:x?} instead of {want:x?}", show()));
        }
    }
    if let Some(t) = got.jumpdests_with_debug_info.keys().find(|t| !s.jumps.contains_key(t) && !s.gray.contains(t)) {
        c.violation("origin of nothing", format!("{}: {t:x}", show()));
    }
}

fn check(c: &Arc<Check>, img: &Image, segments: &[(u64, Vec<u32>)], show: &dyn Fn() -> String) {
    c.eval(1);
    let bytes = img.build();
    match quiet_catch(|| compute_jumpdests_from_buffer(&bytes)) {
        Ok(got) => compare(c, img, segments, &got, show),
        Err(e) => c.violation("refused", format!("{}: {e}", show())),
    }
}

fn main() {
    let c = Check::new(
        "C23",
        "model_checking",
        "all control flow of every image explored: each address reached by a direct jump, a taken branch or a jump through the AUIPC before it is reported with its origin, symbols of the code are reported, and nothing else",
        &["32-bit instructions of RV64IMA", "AUIPC and the jump are in the same segment"],
    );
    const A: u64 = 0x1_0000;
    let nop = addi(0, 0, 0);
    let bases = [A, 0x20_0800, 0x7fff_fff0, 0xffff_f000, 0x12_3456_7000, 0x7f_ffff_ff00];
    c.batch("all direct jumps", || {
        // every offset of JAL, in one image per upper part
        let regs: &[u32] = if thorough() { &[0, 1, 5, 31] } else { &[0, 1] };
        (0..1u32 << 10).into_par_iter().for_each(|hi| {
            for &rd in regs {
                for &base in bases.iter().step_by(tier(4, 1)) {
                    let words: Vec<u32> = (0..1u32 << 10).map(|lo| (hi << 10 | lo) << 12 | rd << 7 | 0x6f).collect();
                    let segs = [(base + 0x10_0000, words)];
                    check(&c, &image(&segs, base), &segs, &|| format!("JAL {hi:x} x{rd} {base:x}"));
                }
            }
        });
    });
    c.batch("all branches", || {
        let regs = [(0u32, 0u32), (1, 2), (31, 31), (5, 0), (0, 9)];
        [0u32, 1, 4, 5, 6, 7].into_par_iter().for_each(|f3| {
            for (x, y) in regs {
                for &base in &bases {
                    let words: Vec<u32> = (0..1u32 << 12).map(|o| (o >> 5) << 25 | y << 20 | x << 15 | f3 << 12 | (o & 31) << 7 | 0x63).collect();
                    let segs = [(base, words)];
                    check(&c, &image(&segs, base), &segs, &|| format!("branch {f3} {x} {y} {base:x}"));
                }
            }
        });
    });
    c.batch("all pairs of registers and offsets", || {
        // upper parts and lower parts at their boundaries; all pairs of registers
        let his: Vec<u32> = vec![0, 0x1000, 0x7fff_f000, 0x8000_0000, 0xffff_f000, 0x1234_5000, 0x0008_0000, 0xfff0_0000];
        let los: Vec<i32> = if thorough() { (-2048..2048).collect() } else { vec![0, 1, 2, 3, 4, 8, 0x100, 0x7fe, 0x7ff, -1, -2, -4, -8, -0x800, -0x7ff, 0x555] };
        (0..32u32).into_par_iter().for_each(|r| {
            for rs in 0..32 {
                for rd in [0, r, rs, 1, 5, 31] {
                    for (hi, base) in his.iter().zip(bases.iter().cycle()) {
                        if r != rs && *hi != 0x1000 {
                            continue;
                        }
                        // the lower part of the high address space would leave the domain
                        let mut words = vec![];
                        for lo in &los {
                            words.extend([u_type(0x17, r, *hi), jalr(rd, rs, *lo)]);
                        }
                        let segs = [(*base, words)];
                        check(&c, &image(&segs, *base), &segs, &|| format!("auipc x{r} {hi:x}; jalr x{rd}, x{rs} {base:x}"));
                    }
                }
            }
        });
    });
    c.batch("other instructions", || {
        // RV64IMA
        let mut words = vec![0x0000_000f, 0x0ff0_000f, 0x73, 0x10_0073];
        for rd in [0, 1, 31] {
            for x in [0u32, 2, 31] {
                words.push(u_type(0x37, rd, 0xdead_b000));
                for imm in [0, 1, -1, 2047, -2048] {
                    for f3 in [0, 2, 3, 4, 6, 7] {
                        words.push(i_type(f3, 0x13, rd, x, imm));
                    }
                    words.push(i_type(0, 0x1b, rd, x, imm));
                    for f3 in 0..7 {
                        words.push(i_type(f3, 0x03, rd, x, imm));
                    }
                    for f3 in 0..4 {
                        words.push(s_type(f3, rd, x, imm));
                    }
                }
                for sh in [0, 1, 31, 32, 63] {
                    for (f3, top) in [(1, 0), (5, 0), (5, 0x400)] {
                        words.push(i_type(f3, 0x13, rd, x, top | sh));
                        if sh < 32 {
                            words.push(i_type(f3, 0x1b, rd, x, top | sh));
                        }
                    }
                }
                for y in [0u32, 3, 31] {
                    for (f7, f3s) in [(0u32, vec![0u32, 1, 2, 3, 4, 5, 6, 7]), (0x20, vec![0, 5]), (1, vec![0, 1, 2, 3, 4, 5, 6, 7])] {
                        for f3 in f3s {
                            words.push(r_type(f7, f3, 0x33, rd, x, y));
                        }
                    }
                    for (f7, f3s) in [(0u32, vec![0u32, 1, 5]), (0x20, vec![0, 5]), (1, vec![0, 4, 5, 6, 7])] {
                        for f3 in f3s {
                            words.push(r_type(f7, f3, 0x3b, rd, x, y));
                        }
                    }
                    for f3 in [2, 3] {
                        for f5 in [0u32, 1, 2, 3, 4, 8, 12, 16, 20, 24, 28] {
                            words.push(r_type(f5 << 2, f3, 0x2f, rd, x, if f5 == 2 { 0 } else { y }));
                        }
                    }
                }
            }
        }
        c.count("other instructions", words.len() as u64);
        words.par_iter().for_each(|w| {
            // alone, and between the halves of a pair
            for words in [vec![*w], vec![u_type(0x17, 1, 0x1000), *w, jalr(1, 1, 8)], vec![*w, j_type(0, -4)]] {
                let segs = [(A, words)];
                check(&c, &image(&segs, A), &segs, &|| format!("{w:08x}"));
            }
        });
    });
    c.batch("sequences", || {
        let alphabet = [
            nop,
            j_type(0, 0),
            j_type(1, 8),
            j_type(0, -4),
            j_type(0, 0x1000),
            b_type(0, 1, 2, 4),
            b_type(5, 0, 1, -8),
            b_type(7, 3, 4, 0x802),
            u_type(0x17, 1, 0),
            u_type(0x17, 1, 0xffff_f000),
            u_type(0x17, 5, 0x1000),
            u_type(0x17, 0, 0x1000),
            u_type(0x37, 1, 0x1000),
            jalr(0, 1, 0),
            jalr(1, 1, 12),
            jalr(0, 5, -4),
            jalr(5, 1, 9),
            jalr(0, 0, 16),
            addi(1, 1, 4),
            i_type(3, 3, 1, 1, 8),
        ];
        let max = tier(4, 5);
        for n in 1..=max {
            (0..alphabet.len()).into_par_iter().for_each(|f| {
                let mut idx = vec![0; n - 1];
                loop {
                    if c.violated() {
                        return;
                    }
                    let words: Vec<u32> = std::iter::once(f).chain(idx.iter().copied()).map(|k: usize| alphabet[k]).collect();
                    let segs = [(A, words)];
                    let mut img = image(&segs, A);
                    // from the same shape: a symbol in the middle of every other image
                    if n > 2 && f % 2 == 0 {
                        img.symbols.push(("f".into(), A + 8, 2));
                    }
                    check(&c, &img, &segs, &|| format!("{:08x?}", segs[0].1));
                    let mut k = 0;
                    while k < idx.len() {
                        idx[k] += 1;
                        if idx[k] < alphabet.len() {
                            break;
                        }
                        idx[k] = 0;
                        k += 1;
                    }
                    if k == idx.len() {
                        break;
                    }
                }
            });
        }
    });
    c.batch("segments and symbols", || {
        // code at three places in any order, with data and symbols everywhere
        let texts = [
            (A, vec![j_type(0, 8), nop, b_type(1, 1, 2, 4), nop]),
            (A + 16, vec![u_type(0x17, 1, 0x1000), jalr(1, 1, 4)]),
            (0x40_0000, vec![nop, j_type(0, -0x1_0000), u_type(0x17, 6, 0)]),
        ];
        let places: Vec<Sym> = [A, A + 4, A + 8, A + 14, A + 16, A + 20, A + 24, 0x40_0000, 0x40_000c, 0x8000, 0x8004]
            .iter()
            .enumerate()
            .flat_map(|(k, a)| [(format!("s{k}"), *a, 2u8), (format!("t{k}"), *a, 0u8)])
            .collect();
        let orders: Vec<Vec<usize>> = (1..=3).flat_map(|n| tuples(3, n)).filter(|o| o.iter().collect::<BTreeSet<_>>().len() == o.len()).collect();
        let sets: Vec<Vec<usize>> = (0..=tier(2, 3)).flat_map(|n| multisets(places.len(), n)).filter(|s| s.windows(2).all(|w| w[0] != w[1])).collect();
        orders.par_iter().for_each(|o| {
            for set in &sets {
                for data in [0, 1, 2] {
                    for tail in [0u64, 8] {
                        if c.violated() {
                            return;
                        }
                        let segs: Vec<(u64, Vec<u32>)> = o.iter().map(|k| texts[*k].clone()).collect();
                        let mut img = image(&segs, segs[0].0 + 4);
                        // memory that is larger than the part in the file
                        if let Some(s) = img.segments.iter_mut().find(|s| s.addr == 0x40_0000) {
                            s.size += tail;
                        }
                        let d = Seg::data(0x8000, j_type(0, 16).to_le_bytes().to_vec());
                        match data {
                            1 => img.segments.insert(0, d),
                            2 => img.segments.push(d),
                            _ => {}
                        }
                        img.symbols = set.iter().map(|k| places[*k].clone()).collect();
                        check(&c, &img, &segs, &|| format!("segments {o:?} data {data} tail {tail} symbols {:x?}", img.symbols));
                    }
                }
            }
        });
        // from a file
        let segs = [texts[1].clone()];
        let img = image(&segs, A + 16);
        let path = std::env::temp_dir().join(format!("mc-c23-{}", std::process::id()));
        std::fs::write(&path, img.build()).unwrap();
        c.eval(1);
        match quiet_catch(|| compute_jumpdests(&path)) {
            Ok(got) => compare(&c, &img, &segs, &got, &|| "from a file".into()),
            Err(e) => c.violation("refused", format!("from a file: {e}")),
        }
        let _ = std::fs::remove_file(&path);
    });
    c.sample(json!({"code": "auipc x1, 0; jalr x1, 12(x1)", "expect": "address of the auipc plus 12 is reported"}));
    c.finish()
}
