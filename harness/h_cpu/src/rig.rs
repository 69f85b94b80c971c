//! A processor and a memory with a code area and a data area, programs run on it under
//! supervision, and what their debug instructions reveal.
use crate::ctx::*;
use crate::isa::*;
use crate::model::{self, V};
use parasol_concurrency::AtomicRefCell;
use parasol_cpu::{Byte, CallData, DynamicToArg, FheComputer, Memory, Ptr32, Register, RunProgramOptionsBuilder, ToArg};
use parasol_runtime::fluent::{DynamicUInt, UInt};
use parasol_runtime::L1GlweCiphertext;
use std::cell::RefCell;
use std::result::Result;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;
use vkit::*;

pub type Bit = Arc<AtomicRefCell<L1GlweCiphertext>>;

pub fn enc_bits(val: u128, w: u32) -> Vec<Bit> {
    let c = ctx(0);
    DynamicUInt::<L1GlweCiphertext>::encrypt_secret(val, &c.enc, &c.sk, w as usize).bits
}
pub fn dec_bits(b: &[Bit]) -> u128 {
    let c = ctx(0);
    DynamicUInt::<L1GlweCiphertext>::from_bits_shallow(b.to_vec()).decrypt(&c.enc, &c.sk)
}
pub fn bytes_of(v: V) -> Vec<Byte> {
    if v.enc {
        enc_bits(v.val, v.w).chunks(8).map(|c| Byte::try_from(c.to_vec()).unwrap()).collect()
    } else {
        (0..v.w / 8).map(|i| Byte::from((v.val >> (8 * i)) as u8)).collect()
    }
}
pub fn byte_val(b: &Byte) -> model::B {
    match b {
        Byte::Plaintext(v) => model::B { enc: false, val: *v },
        Byte::Ciphertext(v) => model::B { enc: true, val: dec_bits(v) as u8 },
    }
}

/// N bytes of any kind, aligned to A.
#[derive(Clone)]
pub struct Raw<const N: usize, const A: usize>(pub Vec<Byte>);
impl<const N: usize, const A: usize> ToArg for Raw<N, A> {
    fn alignment() -> usize {
        A
    }
    fn size() -> usize {
        N
    }
    fn to_bytes(&self) -> Vec<Byte> {
        self.0.clone()
    }
    fn try_from_bytes(data: Vec<Byte>) -> parasol_cpu::Result<Self> {
        Ok(Raw(data))
    }
}
/// Bytes of any kind with an alignment known at run time.
#[derive(Clone)]
pub struct DynRaw {
    pub align: usize,
    pub bytes: Vec<Byte>,
}
impl DynamicToArg for DynRaw {
    fn alignment(&self) -> usize {
        self.align
    }
    fn size(&self) -> usize {
        self.bytes.len()
    }
    fn to_bytes(&self) -> Vec<Byte> {
        self.bytes.clone()
    }
    fn try_from_bytes(data: Vec<Byte>) -> parasol_cpu::Result<Self> {
        Ok(DynRaw { align: 1, bytes: data })
    }
}
pub fn peek(m: &Memory, a: u32) -> parasol_cpu::Result<Byte> {
    m.try_load_type::<Raw<1, 1>>(Ptr32::from(a)).map(|r| r.0[0].clone())
}
pub fn poke(m: &Memory, a: u32, b: Byte) -> parasol_cpu::Result<()> {
    m.try_write_type(Ptr32::from(a), &Raw::<1, 1>(vec![b]))
}

/// A register as a debug handler saw it.
#[derive(Clone)]
pub enum Cap {
    Plain(u128, u32),
    Enc(Vec<Bit>),
    OtherCipher,
}
impl Cap {
    pub fn of(r: &Register) -> Cap {
        match r {
            Register::Plaintext { val, width } => Cap::Plain(*val, *width),
            Register::Ciphertext(c) => match c.try_into_l1glwe() {
                Ok(d) => Cap::Enc(d.to_vec()),
                Err(_) => Cap::OtherCipher,
            },
        }
    }
    pub fn value(&self) -> Result<V, Fail> {
        Ok(match self {
            Cap::Plain(v, w) => V { enc: false, val: *v, w: *w },
            Cap::Enc(b) if b.is_empty() || b.len() > 128 => return fail("encrypted-register-width", format!("{} bits", b.len())),
            Cap::Enc(b) => V { enc: true, val: dec_bits(b), w: b.len() as u32 },
            Cap::OtherCipher => return fail("register-kind", "a register holds a ciphertext kind no instruction defines"),
        })
    }
}

pub const CODE_BYTES: u32 = 4096;
pub const DATA_BYTES: u32 = 4096;

pub struct Rig {
    pub comp: Option<FheComputer>,
    pub mem: Arc<Memory>,
    pub code: u32,
    pub data: u32,
    pub panics: Arc<Mutex<Vec<String>>>,
    pub hung: bool,
    /// ask for instruction and register logs
    pub log: bool,
}

static HANGS: AtomicUsize = AtomicUsize::new(0);

/// Everything a run left behind.
pub struct Ran<T> {
    pub result: parasol_cpu::Result<(u32, T)>,
    /// (handler, register), in program order
    pub dbg: Vec<(u32, Cap)>,
}

impl Rig {
    pub fn new(threads: usize) -> Rig {
        let panics = Arc::new(Mutex::new(vec![]));
        let p = panics.clone();
        let pool = rayon::ThreadPoolBuilder::new()
            .num_threads(threads)
            .panic_handler(move |e| {
                let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                p.lock().unwrap().push(s);
            })
            .build()
            .unwrap();
        let c = ctx(0);
        let comp = FheComputer::new_with_threadpool(&c.enc, &c.eval, Arc::new(pool));
        let mem = Arc::new(Memory::new_default_stack());
        let code = u32::from(mem.try_allocate(CODE_BYTES).unwrap());
        let data = u32::from(mem.try_allocate(DATA_BYTES).unwrap());
        Rig { comp: Some(comp), mem, code, data, panics, hung: false, log: false }
    }
    /// Machine state that corresponds to a fresh run: code and data pages mapped.
    pub fn machine(&self) -> model::Machine {
        let (c, d) = (self.code as u64, self.data as u64);
        let mut m = model::Machine::new(vec![(c, c + CODE_BYTES as u64), (d, d + DATA_BYTES as u64), (0x8000_0000, 0x8000_1000)], self.code);
        m.regs[2] = model::plain(0x8000_1000, 32);
        m
    }
    pub fn write_words(&self, at: u32, words: &[u64]) {
        for (i, w) in words.iter().enumerate() {
            self.mem.try_write_type(Ptr32::from(at + 8 * i as u32), w).unwrap();
        }
    }
    pub fn put(&self, at: u32, v: V) {
        for (i, b) in bytes_of(v).into_iter().enumerate() {
            poke(&self.mem, at + i as u32, b).unwrap();
        }
    }
    /// Run from `pc`. Handler 0 records; handlers 1 and up record after sleeping `100 * id` us.
    pub fn run<T: ToArg + Send + 'static>(&mut self, pc: u32, args: CallData<T>, gas: Option<u32>) -> Result<Ran<T>, Fail> {
        let mem = self.mem.clone();
        self.run_on(mem, pc, args, gas)
    }
    pub fn run_on<T: ToArg + Send + 'static>(&mut self, mem: Arc<Memory>, pc: u32, args: CallData<T>, gas: Option<u32>) -> Result<Ran<T>, Fail> {
        let caps: Arc<Mutex<Vec<(usize, u32, Cap)>>> = Arc::default();
        let mut b = RunProgramOptionsBuilder::new().gas_limit(gas).log_instruction_execution(self.log).log_register_info(self.log);
        for h in 0..4u32 {
            let c = caps.clone();
            b = b.debug_handler(move |id, _, r| {
                c.lock().unwrap().push((id, h, Cap::of(r)));
                if h > 0 {
                    std::thread::sleep(Duration::from_micros(200 << h));
                }
            });
        }
        let opts = b.build();
        let mut comp = self.comp.take().expect("rig is usable");
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let r = catch(|| comp.run_program_with_options(Ptr32::from(pc), &mem, args, &opts));
            let _ = tx.send((r, comp));
        });
        let limit = if HANGS.load(Ordering::Relaxed) == 0 { 60_000 } else { 4_000 };
        for _ in 0..limit / 100 {
            match rx.recv_timeout(Duration::from_millis(100)) {
                Ok((r, comp)) => {
                    let p = std::mem::take(&mut *self.panics.lock().unwrap());
                    if !p.is_empty() {
                        return fail("pool-thread-panic", p.join("; "));
                    }
                    return match r {
                        Ok(result) => {
                            self.comp = Some(comp);
                            // handlers are called as operands become known; ids follow the program
                            let mut dbg = std::mem::take(&mut *caps.lock().unwrap());
                            dbg.sort_by_key(|x| x.0);
                            let dbg = dbg.into_iter().map(|(_, h, c)| (h, c)).collect();
                            Ok(Ran { result, dbg })
                        }
                        Err(e) => {
                            std::mem::forget(comp);
                            fail("panic", e)
                        }
                    };
                }
                Err(mpsc::RecvTimeoutError::Timeout) => {
                    let p = std::mem::take(&mut *self.panics.lock().unwrap());
                    if !p.is_empty() {
                        return fail("pool-thread-panic", p.join("; "));
                    }
                }
                Err(_) => return fail("panic", "the running thread died"),
            }
        }
        HANGS.fetch_add(1, Ordering::Relaxed);
        self.hung = true;
        fail("never-ends", format!("the run had not ended after {limit} ms"))
    }
    pub fn usable(&self) -> bool {
        self.comp.is_some()
    }
}

thread_local! {
    static RIGS: RefCell<Vec<(usize, Rig)>> = const { RefCell::new(vec![]) };
}
/// Run `f` on this worker's rig with that many pool threads; a rig that was damaged is replaced.
pub fn with_rig<T>(threads: usize, f: impl FnOnce(&mut Rig) -> Result<T, Fail>) -> Result<T, Fail> {
    let mut rig = RIGS.with(|r| {
        let mut r = r.borrow_mut();
        match r.iter().position(|(t, _)| *t == threads) {
            Some(i) => r.swap_remove(i).1,
            None => Rig::new(threads),
        }
    });
    let out = f(&mut rig);
    if rig.usable() && out.is_ok() {
        RIGS.with(|r| r.borrow_mut().push((threads, rig)));
    }
    out
}

pub fn words(p: &[Ins]) -> Vec<u64> {
    p.iter().map(|i| u64::from(i.isa())).collect()
}
pub fn no_args() -> CallData<()> {
    parasol_cpu::ArgsBuilder::new().no_return_value()
}
#[allow(unused)]
pub type U8 = UInt<8, L1GlweCiphertext>;
