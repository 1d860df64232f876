//! ELF files assembled from parts.

#[derive(Clone, Default)]
pub struct Seg {
    pub kind: u32,
    pub addr: u64,
    pub data: Vec<u8>,
    pub size: u64,
    pub exec: bool,
}
impl Seg {
    pub fn text(addr: u64, data: Vec<u8>) -> Seg {
        Seg { kind: 1, addr, size: data.len() as u64, data, exec: true }
    }
    pub fn data(addr: u64, data: Vec<u8>) -> Seg {
        Seg { kind: 1, addr, size: data.len() as u64, data, exec: false }
    }
}
/// name, address, kind (1: object, 2: function, 0: none)
pub type Sym = (String, u64, u8);

#[derive(Clone, Default)]
pub struct Dwarf {
    pub version: u16,
    pub dir: String,
    /// directory (0: that of the unit) and name
    pub files: Vec<(u8, String)>,
    pub dirs: Vec<String>,
    /// address, file as numbered in the format, line, column, flags: 1 end of prologue
    pub rows: Vec<(u32, u32, u32, u32, u8)>,
    /// linkage name (if any), address
    pub functions: Vec<(Option<String>, u32)>,
    /// path of namespaces and name, linkage name, file and line of declaration, address
    pub variables: Vec<(Vec<String>, String, Option<String>, Option<(u8, u8)>, u32)>,
}

#[derive(Clone, Default)]
pub struct Image {
    pub wide: bool,
    pub pie: bool,
    pub entry: u64,
    pub segments: Vec<Seg>,
    pub symbols: Vec<Sym>,
    /// relocations kept by the linker: address and kind
    pub relocs: Vec<(u64, u32)>,
    /// relocations for the loader (R_RISCV_RELATIVE): address and value
    pub relative: Vec<(u64, u64)>,
    /// where the tables of the latter are put
    pub dynamic_at: u64,
    pub units: Vec<Dwarf>,
}

pub const HI20: u32 = 26;
pub const LO12_I: u32 = 27;
pub const WORD: u32 = 1;
pub const BRANCH: u32 = 16;

fn uleb(out: &mut Vec<u8>, mut v: u32) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
fn sleb(out: &mut Vec<u8>, mut v: i32) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
fn cstr(out: &mut Vec<u8>, s: &str) {
    out.extend(s.as_bytes());
    out.push(0);
}
fn p16(out: &mut Vec<u8>, v: u16) {
    out.extend(v.to_le_bytes());
}
fn p32(out: &mut Vec<u8>, v: u32) {
    out.extend(v.to_le_bytes());
}
fn with_len(out: &mut Vec<u8>, body: Vec<u8>) {
    p32(out, body.len() as u32);
    out.extend(body);
}

/// (.debug_abbrev, .debug_info, .debug_line)
fn dwarf(units: &[Dwarf]) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    // code, tag, children, (attribute, form)*
    let abbrevs: Vec<(u8, u8, u8, Vec<(u8, u8)>)> = vec![
        (1, 0x11, 1, vec![(0x10, 0x17), (0x1b, 0x08), (0x03, 0x08)]),
        (2, 0x2e, 0, vec![(0x6e, 0x08), (0x11, 0x01)]),
        (3, 0x2e, 0, vec![(0x03, 0x08), (0x11, 0x01)]),
        (4, 0x39, 1, vec![(0x03, 0x08)]),
        (5, 0x34, 0, vec![(0x03, 0x08), (0x02, 0x18)]),
        (6, 0x34, 0, vec![(0x03, 0x08), (0x02, 0x18), (0x6e, 0x08)]),
        (7, 0x34, 0, vec![(0x03, 0x08), (0x02, 0x18), (0x3a, 0x0b), (0x3b, 0x0b)]),
        (8, 0x34, 0, vec![(0x03, 0x08), (0x02, 0x18), (0x6e, 0x08), (0x3a, 0x0b), (0x3b, 0x0b)]),
    ];
    let mut ab = vec![];
    for (c, t, ch, attrs) in &abbrevs {
        ab.extend([*c, *t, *ch]);
        for (a, f) in attrs {
            ab.extend([*a, *f]);
        }
        ab.extend([0, 0]);
    }
    ab.push(0);
    let (mut info, mut line) = (vec![], vec![]);
    for u in units {
        let at = line.len() as u32;
        // line program
        let mut prog = vec![];
        let mut cur_line = 1i32;
        for (k, (addr, file, l, col, flags)) in u.rows.iter().enumerate() {
            prog.extend([0, 5, 2]);
            p32(&mut prog, *addr);
            prog.push(4);
            uleb(&mut prog, *file);
            prog.push(3);
            sleb(&mut prog, *l as i32 - cur_line);
            cur_line = *l as i32;
            prog.push(5);
            uleb(&mut prog, *col);
            if flags & 1 != 0 {
                prog.push(0xa);
            }
            prog.push(1);
            // addresses do not decrease within a sequence
            if u.rows.get(k + 1).is_none_or(|next| next.0 < *addr) {
                prog.extend([2, 2, 0, 1, 1]); // advance the address by 2, end
                cur_line = 1;
            }
        }
        let mut header = vec![1, 1, 1, 0xfb, 14, 13, 0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1];
        if u.version >= 5 {
            header.push(1);
            header.extend([1, 8]);
            uleb(&mut header, u.dirs.len() as u32 + 1);
            cstr(&mut header, &u.dir);
            for d in &u.dirs {
                cstr(&mut header, d);
            }
            header.push(2);
            header.extend([1, 8, 2, 0x0b]);
            uleb(&mut header, u.files.len() as u32);
            for (d, f) in &u.files {
                cstr(&mut header, f);
                header.push(*d);
            }
        } else {
            for d in &u.dirs {
                cstr(&mut header, d);
            }
            header.push(0);
            for (d, f) in &u.files {
                cstr(&mut header, f);
                header.extend([*d, 0, 0]);
            }
            header.push(0);
        }
        let mut body = vec![];
        p16(&mut body, u.version);
        if u.version >= 5 {
            body.extend([4, 0]);
        }
        with_len(&mut body, header);
        body.extend(prog);
        with_len(&mut line, body);
        // entries
        let mut body = vec![];
        p16(&mut body, u.version);
        if u.version >= 5 {
            body.extend([1, 4]);
            p32(&mut body, 0);
        } else {
            p32(&mut body, 0);
            body.push(4);
        }
        body.push(1);
        p32(&mut body, at);
        cstr(&mut body, &u.dir);
        cstr(&mut body, "unit");
        for (name, addr) in &u.functions {
            match name {
                Some(n) => {
                    body.push(2);
                    cstr(&mut body, n);
                }
                None => {
                    body.push(3);
                    cstr(&mut body, "plain");
                }
            }
            p32(&mut body, *addr);
        }
        for (path, name, linkage, decl, addr) in &u.variables {
            for p in path {
                body.push(4);
                cstr(&mut body, p);
            }
            body.push(5 + linkage.is_some() as u8 + 2 * decl.is_some() as u8);
            cstr(&mut body, name);
            body.extend([5, 3]);
            p32(&mut body, *addr);
            if let Some(l) = linkage {
                cstr(&mut body, l);
            }
            if let Some((f, l)) = decl {
                body.extend([*f, *l]);
            }
            for _ in path {
                body.push(0);
            }
        }
        body.push(0);
        with_len(&mut info, body);
    }
    (ab, info, line)
}

impl Image {
    pub fn build(&self) -> Vec<u8> {
        let w = self.wide;
        let word = |out: &mut Vec<u8>, v: u64| {
            if w {
                out.extend(v.to_le_bytes())
            } else {
                out.extend((v as u32).to_le_bytes())
            }
        };
        let mut segs = self.segments.clone();
        let mut dynamic = None;
        if self.pie {
            // relocations, then the dynamic section, in a segment of their own
            let mut d = vec![];
            for (a, v) in &self.relative {
                word(&mut d, *a);
                word(&mut d, 3);
                word(&mut d, *v);
            }
            let n = d.len() as u64;
            let (sa, sr) = if w { (8, 24) } else { (4, 12) };
            for (t, v) in [(7, self.dynamic_at), (8, n), (9, sr), (0, 0)] {
                word(&mut d, t);
                word(&mut d, v);
            }
            dynamic = Some((self.dynamic_at + n, 8 * sa));
            segs.push(Seg::data(self.dynamic_at, d));
        }
        let (eh, ph, sh) = if w { (64, 56, 64) } else { (52, 32, 40) };
        let nph = segs.len() + dynamic.is_some() as usize;
        let mut off = (eh + nph * ph) as u64;
        let mut phs = vec![];
        let mut blob: Vec<u8> = vec![];
        let mut dyn_off = 0;
        for s in &segs {
            phs.push((s.kind, off, s.addr, s.data.len() as u64, s.size, if s.exec { 5 } else { 6 }));
            if s.addr == self.dynamic_at && self.pie {
                dyn_off = off + (dynamic.unwrap().0 - s.addr);
            }
            blob.extend(&s.data);
            off += s.data.len() as u64;
        }
        if let Some((a, n)) = dynamic {
            phs.push((2, dyn_off, a, n, n, 6));
        }
        // sections: name, kind, data, link, info, entry size
        let mut sections: Vec<(&str, u32, Vec<u8>, u32, u32, u64)> = vec![("", 0, vec![], 0, 0, 0)];
        let (mut strtab, mut symtab) = (vec![0u8], vec![0u8; if w { 24 } else { 16 }]);
        for (name, value, kind) in &self.symbols {
            let at = if name.is_empty() { 0 } else { strtab.len() as u32 };
            if !name.is_empty() {
                cstr(&mut strtab, name);
            }
            p32(&mut symtab, at);
            if w {
                symtab.extend([0x10 | kind, 0]);
                p16(&mut symtab, 1);
                word(&mut symtab, *value);
                word(&mut symtab, 0);
            } else {
                word(&mut symtab, *value);
                word(&mut symtab, 0);
                symtab.extend([0x10 | kind, 0]);
                p16(&mut symtab, 1);
            }
        }
        sections.push((".strtab", 3, strtab, 0, 0, 0));
        sections.push((".symtab", 2, symtab, 1, 1, if w { 24 } else { 16 }));
        if !self.relocs.is_empty() {
            let mut r = vec![];
            for (a, k) in &self.relocs {
                word(&mut r, *a);
                word(&mut r, *k as u64);
                word(&mut r, 0);
            }
            sections.push((".rela.text", 4, r, 2, 0, if w { 24 } else { 12 }));
        }
        if !self.units.is_empty() {
            let (a, i, l) = dwarf(&self.units);
            sections.push((".debug_abbrev", 1, a, 0, 0, 0));
            sections.push((".debug_info", 1, i, 0, 0, 0));
            sections.push((".debug_line", 1, l, 0, 0, 0));
        }
        let mut names = vec![0u8];
        let mut name_at = vec![];
        for (n, ..) in sections.iter().chain([&(".shstrtab", 3, vec![], 0, 0, 0)]) {
            name_at.push(if n.is_empty() { 0 } else { names.len() as u32 });
            if !n.is_empty() {
                cstr(&mut names, n);
            }
        }
        sections.push((".shstrtab", 3, names, 0, 0, 0));
        let mut shs = vec![];
        for (k, (_, kind, data, link, info, ent)) in sections.iter().enumerate() {
            p32(&mut shs, name_at[k]);
            p32(&mut shs, *kind);
            word(&mut shs, 0);
            word(&mut shs, 0);
            word(&mut shs, if k == 0 { 0 } else { off });
            word(&mut shs, data.len() as u64);
            p32(&mut shs, *link);
            p32(&mut shs, *info);
            word(&mut shs, 0);
            word(&mut shs, *ent);
            blob.extend(data);
            off += data.len() as u64;
        }
        let mut out = vec![0x7f, b'E', b'L', b'F', 1 + w as u8, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        p16(&mut out, if self.pie { 3 } else { 2 });
        p16(&mut out, 243);
        p32(&mut out, 1);
        word(&mut out, self.entry);
        word(&mut out, eh as u64);
        word(&mut out, off);
        p32(&mut out, 0);
        for v in [eh, ph, nph, sh, sections.len(), sections.len() - 1] {
            p16(&mut out, v as u16);
        }
        for (kind, o, a, fs, ms, flags) in phs {
            p32(&mut out, kind);
            if w {
                p32(&mut out, flags);
            }
            for v in [o, a, a, fs, ms] {
                word(&mut out, v);
            }
            if !w {
                p32(&mut out, flags);
            }
            word(&mut out, 1);
        }
        out.extend(blob);
        out.extend(shs);
        out
    }
}
