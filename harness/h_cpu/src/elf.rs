//! ELF images written from scratch.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Seg {
    /// PT_LOAD, or another segment type
    pub load: bool,
    pub vaddr: u32,
    pub memsz: u32,
    pub file: Vec<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sym {
    pub name: String,
    pub value: u32,
    /// STT_FUNC, or another symbol type
    pub func: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Image {
    pub segs: Vec<Seg>,
    /// `None`: no symbol table at all
    pub syms: Option<Vec<Sym>>,
    pub abi: u8,
    pub class64: bool,
    pub no_phdr: bool,
}

impl Image {
    pub fn plain(segs: Vec<Seg>) -> Image {
        Image { segs, syms: Some(vec![]), abi: 3, class64: false, no_phdr: false }
    }
    /// The file: header, program headers, segment contents, symbol table, strings, section headers.
    pub fn bytes(&self) -> Vec<u8> {
        let w = self.class64;
        let (eh, ph, sh, st) = if w { (64, 56, 64, 24) } else { (52, 32, 40, 16) };
        let np = if self.no_phdr { 0 } else { self.segs.len() };
        let mut at = eh + ph * np;
        let mut body: Vec<u8> = vec![];
        let mut offs = vec![];
        for s in &self.segs {
            offs.push(at);
            body.extend(&s.file);
            at += s.file.len();
        }
        let word = |o: &mut Vec<u8>, v: u64| if w { o.extend(v.to_le_bytes()) } else { o.extend((v as u32).to_le_bytes()) };
        let half = |o: &mut Vec<u8>, v: u16| o.extend(v.to_le_bytes());
        // symbol table
        let mut strtab = vec![0u8];
        let mut symtab = vec![0u8; st];
        for s in self.syms.iter().flatten() {
            let name = strtab.len() as u32;
            strtab.extend(s.name.bytes());
            strtab.push(0);
            symtab.extend(name.to_le_bytes());
            let info = 0x10 | if s.func { 2u8 } else { 1 };
            if w {
                symtab.extend([info, 0, 1, 0]);
                symtab.extend((s.value as u64).to_le_bytes());
                symtab.extend(0u64.to_le_bytes());
            } else {
                symtab.extend(s.value.to_le_bytes());
                symtab.extend(0u32.to_le_bytes());
                symtab.extend([info, 0, 1, 0]);
            }
        }
        let has = self.syms.is_some();
        let (sym_at, str_at) = (at, at + symtab.len());
        if has {
            body.extend(&symtab);
            body.extend(&strtab);
        }
        let sh_at = str_at + strtab.len();
        let mut out = vec![0x7F, b'E', b'L', b'F', if w { 2 } else { 1 }, 1, 1, 0, self.abi, 0, 0, 0, 0, 0, 0, 0];
        half(&mut out, 2);
        half(&mut out, 243);
        out.extend(1u32.to_le_bytes());
        word(&mut out, 0);
        word(&mut out, if np == 0 { 0 } else { eh as u64 });
        word(&mut out, if has { sh_at as u64 } else { 0 });
        out.extend(0u32.to_le_bytes());
        for v in [eh, if np == 0 { 0 } else { ph }, np, if has { sh } else { 0 }, if has { 3 } else { 0 }, if has { 2 } else { 0 }] {
            half(&mut out, v as u16);
        }
        for (s, o) in self.segs.iter().zip(&offs).take(np) {
            let ty = if s.load { 1u32 } else { 4 };
            out.extend(ty.to_le_bytes());
            if w {
                out.extend(5u32.to_le_bytes());
            }
            word(&mut out, *o as u64);
            word(&mut out, s.vaddr as u64);
            word(&mut out, s.vaddr as u64);
            word(&mut out, s.file.len() as u64);
            word(&mut out, s.memsz as u64);
            if !w {
                out.extend(5u32.to_le_bytes());
            }
            word(&mut out, 8);
        }
        out.extend(body);
        if has {
            let mut section = |ty: u32, off: usize, size: usize, link: u32, ent: usize| {
                out.extend(0u32.to_le_bytes());
                out.extend(ty.to_le_bytes());
                word(&mut out, 0);
                word(&mut out, 0);
                word(&mut out, off as u64);
                word(&mut out, size as u64);
                out.extend(link.to_le_bytes());
                out.extend(0u32.to_le_bytes());
                word(&mut out, 1);
                word(&mut out, ent as u64);
            };
            section(0, 0, 0, 0, 0);
            section(2, sym_at, symtab.len(), 2, st);
            section(3, str_at, strtab.len(), 0, 0);
        }
        out
    }
}
