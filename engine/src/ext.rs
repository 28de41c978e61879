//! External functions: LLVM intrinsics, libc, the symbolic API, and modelled std functions.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum B {
    Nop,
    Assume,
    MemCpy,
    MemSet,
    LibMemCpy,
    LibMemSet,
    MinMax(Pred),
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    Abs,
    Ovf(BinOp, bool),
    Sat(BinOp, bool),
    Cmp3(bool),
    TlsAddr,
    Zero,
    Arg0,
    Trap,
    FAbs,
    Reduce(BinOp),
    ReduceMinMax(Pred),
    ObjSize,
    Bcmp,
    Memcmp,
    Memchr,
    Strlen,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    AlignedAlloc,
    Errno,
    Syscall,
    Sysconf,
    SchedAff,
    GetRandom,
    ClockGettime,
    Ret0,
    RetM1,
    Abort,
    Write,
    PthreadSelf,
    PthreadKeyCreate,
    PthreadGetspecific,
    PthreadSetspecific,
    Panic(&'static str),
    HashWrite,
    /// Hash::hash of a String, &String, str or &str: (levels of indirection to the header, where the hasher is)
    HashStr(u8),
    HashFinish,
    SymHash,
    SymU8,
    SymBool,
    SymRange,
    SymIn,
    SymAssume,
    SymAssert,
    SymCover,
    SymNote,
    SymNative,
    SymParam,
    SymConcrete,
    SymSpawn,
    SymJoin,
    SymYield,
    SymLap,
    SymDebug,
    Unknown,
}

pub fn classify(n: &str) -> B {
    if let Some(r) = n.strip_prefix("llvm.") {
        let b = |p: &str| r.starts_with(p);
        return if b("memcpy.") || b("memmove.") || b("memcpy.inline") {
            B::MemCpy
        } else if b("memset.") {
            B::MemSet
        } else if b("assume") {
            B::Assume
        } else if b("lifetime.") || b("experimental.noalias") || b("dbg.") || b("prefetch") || b("x86.sse2.pause") || b("invariant.") || b("donothing") || b("sideeffect") {
            B::Nop
        } else if b("umax.") {
            B::MinMax(Pred::Ugt)
        } else if b("umin.") {
            B::MinMax(Pred::Ult)
        } else if b("smax.") {
            B::MinMax(Pred::Sgt)
        } else if b("smin.") {
            B::MinMax(Pred::Slt)
        } else if b("ctlz.") {
            B::Ctlz
        } else if b("cttz.") {
            B::Cttz
        } else if b("ctpop.") {
            B::Ctpop
        } else if b("bswap.") {
            B::Bswap
        } else if b("bitreverse.") {
            B::Bitreverse
        } else if b("fshl.") {
            B::Fshl
        } else if b("fshr.") {
            B::Fshr
        } else if b("abs.") {
            B::Abs
        } else if b("uadd.with.overflow") {
            B::Ovf(BinOp::Add, false)
        } else if b("sadd.with.overflow") {
            B::Ovf(BinOp::Add, true)
        } else if b("usub.with.overflow") {
            B::Ovf(BinOp::Sub, false)
        } else if b("ssub.with.overflow") {
            B::Ovf(BinOp::Sub, true)
        } else if b("umul.with.overflow") {
            B::Ovf(BinOp::Mul, false)
        } else if b("smul.with.overflow") {
            B::Ovf(BinOp::Mul, true)
        } else if b("uadd.sat") {
            B::Sat(BinOp::Add, false)
        } else if b("usub.sat") {
            B::Sat(BinOp::Sub, false)
        } else if b("sadd.sat") {
            B::Sat(BinOp::Add, true)
        } else if b("ssub.sat") {
            B::Sat(BinOp::Sub, true)
        } else if b("ucmp.") {
            B::Cmp3(false)
        } else if b("scmp.") {
            B::Cmp3(true)
        } else if b("threadlocal.address") {
            B::TlsAddr
        } else if b("is.constant") || b("x86.xgetbv") || b("allow.") {
            B::Zero
        } else if b("expect.") || b("launder.") || b("strip.") || b("ssa.copy") || b("ptrmask") {
            B::Arg0
        } else if b("trap") || b("debugtrap") || b("ubsantrap") {
            B::Trap
        } else if b("fabs.") {
            B::FAbs
        } else if b("vector.reduce.or") {
            B::Reduce(BinOp::Or)
        } else if b("vector.reduce.and") {
            B::Reduce(BinOp::And)
        } else if b("vector.reduce.add") {
            B::Reduce(BinOp::Add)
        } else if b("vector.reduce.xor") {
            B::Reduce(BinOp::Xor)
        } else if b("vector.reduce.umax") {
            B::ReduceMinMax(Pred::Ugt)
        } else if b("vector.reduce.umin") {
            B::ReduceMinMax(Pred::Ult)
        } else if b("objectsize") {
            B::ObjSize
        } else {
            B::Unknown
        };
    }
    match n {
        "bcmp" => B::Bcmp,
        "memcmp" => B::Memcmp,
        "memchr" => B::Memchr,
        "strlen" => B::Strlen,
        "memcpy" | "memmove" => B::LibMemCpy,
        "memset" => B::LibMemSet,
        "malloc" => B::Malloc,
        "calloc" => B::Calloc,
        "realloc" => B::Realloc,
        "free" => B::Free,
        "posix_memalign" => B::PosixMemalign,
        "aligned_alloc" => B::AlignedAlloc,
        "__errno_location" => B::Errno,
        "syscall" => B::Syscall,
        "sysconf" => B::Sysconf,
        "sched_getaffinity" => B::SchedAff,
        "getrandom" => B::GetRandom,
        "clock_gettime" => B::ClockGettime,
        "getenv" | "pthread_key_delete" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_mutex_destroy" | "pthread_mutex_init" | "dl_iterate_phdr" | "munmap"
        | "sigaltstack" | "sigaction" | "signal" | "pause" | "__cxa_thread_atexit_impl" | "poll" | "getauxval" | "__xpg_strerror_r" | "_Unwind_DeleteException" => B::Ret0,
        "pthread_getattr_np" | "mmap64" | "mprotect" | "fcntl" | "dup" | "getcwd" => B::RetM1,
        "abort" | "_exit" | "exit" | "__assert_fail" => B::Abort,
        "write" | "writev" => B::Write,
        "gettid" | "pthread_self" | "getpid" => B::PthreadSelf,
        "pthread_key_create" => B::PthreadKeyCreate,
        "pthread_getspecific" => B::PthreadGetspecific,
        "pthread_setspecific" => B::PthreadSetspecific,
        "__sym_u8" => B::SymU8,
        "__sym_bool" => B::SymBool,
        "__sym_range" => B::SymRange,
        "__sym_in" => B::SymIn,
        "__sym_assume" => B::SymAssume,
        "__sym_assert" => B::SymAssert,
        "__sym_cover" => B::SymCover,
        "__sym_note" => B::SymNote,
        "__sym_native" => B::SymNative,
        "__sym_param" => B::SymParam,
        "__sym_concrete" => B::SymConcrete,
        "__sym_spawn" => B::SymSpawn,
        "__sym_join" => B::SymJoin,
        "__sym_yield" | "sched_yield" => B::SymYield,
        "__sym_hash" => B::SymHash,
        "__sym_lap" => B::SymLap,
        "__sym_debug" => B::SymDebug,
        _ => {
            if n.contains("9panicking9panic_fmt") || n.contains("17rust_begin_unwind") || n.contains("9panicking18panic_nounwind_fmt") || n.contains("9panicking11begin_panic") || n.contains("9panicking20rust_panic_with_hook") || n.contains("9panicking10rust_panic") {
                return B::Panic("panic");
            }
            if !n.contains("9siphasher") && (n.contains("13DefaultHasher") || n.contains("9SipHasher13") || n.contains("11SipHasher13")) {
                if n.contains("6finish") {
                    return B::HashFinish;
                }
                if n.contains("4Hash4hash") && !n.contains("7PathBuf") && !n.contains("4Path") {
                    if n.contains("5implse") {
                        return B::HashStr(0);
                    } else if n.contains("5implsRe") {
                        return B::HashStr(1);
                    } else if n.contains("5implsRNt") && n.contains("6String") {
                        return B::HashStr(3);
                    } else if n.contains("6String") && !n.contains("5impls") {
                        return B::HashStr(2);
                    }
                }
                return B::HashWrite;
            }
            B::Unknown
        }
    }
}

type X<T> = Result<T, End>;

/// marks a hasher that was given a text
const HASHED_TEXT: u64 = 0x7465_7874_7465_7874;

fn wmask(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}

impl<'m> Exec<'m> {
    fn cstr(&mut self, a: u64, n: u64) -> X<String> {
        let mut v = vec![];
        for i in 0..n.min(4096) {
            let r = self.st.mem.byte(a + i);
            match self.merr(r)? {
                Ok(b) => v.push(b),
                Err(_) => v.push(b'?'),
            }
        }
        Ok(String::from_utf8_lossy(&v).into_owned())
    }
    pub fn alloc(&mut self, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = (self.st.heap + 16 + al - 1) / al * al;
        let _ = self.st.mem.write_c(a - 16, size, 8);
        self.st.heap = a + size;
        a
    }
    fn map_tab(&mut self, e: E, w: u32, f: impl Fn(u64) -> u64) -> Option<Val> {
        if let Some((v, t)) = self.x.as_tab(e) {
            let src = self.x.tables[t as usize].clone();
            let mut o = [0u64; 256];
            for i in 0..256 {
                o[i] = f(src[i]) & wmask(w);
            }
            let r = self.x.tab(v, o, w);
            return Some(self.mk(r));
        }
        None
    }
    fn byte_e(&mut self, a: u64) -> X<E> {
        let r = self.st.mem.byte(a);
        Ok(match self.merr(r)? {
            Ok(b) => self.x.konst(b as u128, 8),
            Err(e) => e,
        })
    }
    fn lanewise(&mut self, t: TyId, a: &[Val], f: &mut dyn FnMut(&mut Self, u32, &[Val]) -> X<Val>) -> X<Val> {
        match self.m.types.get(t) {
            Type::Vec(n, e) => {
                let mut r = vec![];
                for k in 0..*n as usize {
                    let l: Vec<Val> = a
                        .iter()
                        .map(|v| match v {
                            Val::Agg(x) => x[k].clone(),
                            o => o.clone(),
                        })
                        .collect();
                    r.push(f(self, self.m.types.bits(*e) as u32, &l)?);
                }
                Ok(Val::Agg(Arc::new(r)))
            }
            _ => {
                let w = self.m.types.bits(t) as u32;
                f(self, w, a)
            }
        }
    }
    fn pred_e(&mut self, p: Pred, a: E, b: E) -> E {
        match p {
            Pred::Ugt => self.x.bin(Op::Ult, b, a),
            Pred::Ult => self.x.bin(Op::Ult, a, b),
            Pred::Sgt => self.x.bin(Op::Slt, b, a),
            Pred::Slt => self.x.bin(Op::Slt, a, b),
            _ => unreachable!(),
        }
    }
    fn minmax(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (sx, sy) = (crate::parse::sext(*x, w), crate::parse::sext(*y, w));
            let first = match p {
                Pred::Ugt => x > y,
                Pred::Ult => x < y,
                Pred::Sgt => sx > sy,
                _ => sx < sy,
            };
            return Ok(Val::C(if first { *x } else { *y }));
        }
        let (ea, eb) = (self.to_e(a, w), self.to_e(b, w));
        let c = self.pred_e(p, ea, eb);
        let r = self.x.ite(c, ea, eb);
        Ok(self.mk(r))
    }
    fn bits_fn(&mut self, which: &B, w: u32, v: &Val) -> X<Val> {
        let conc = |x: u64| -> u64 {
            match which {
                B::Ctlz => {
                    if x == 0 {
                        w as u64
                    } else {
                        (x.leading_zeros() - (64 - w)) as u64
                    }
                }
                B::Cttz => {
                    if x == 0 {
                        w as u64
                    } else {
                        x.trailing_zeros() as u64
                    }
                }
                B::Ctpop => x.count_ones() as u64,
                B::Bitreverse => x.reverse_bits() >> (64 - w),
                B::Bswap => x.swap_bytes() >> (64 - w),
                _ => 0,
            }
        };
        match v {
            Val::C(x) => Ok(Val::C(conc(*x))),
            Val::S(e) if w <= 64 => {
                let e = *e;
                if let Some(r) = self.map_tab(e, w, conc) {
                    return Ok(r);
                }
                match which {
                    B::Bswap => {
                        let mut acc: Option<E> = None;
                        for k in (0..w / 8).rev() {
                            let b = self.x.extract(e, 8 * k, 8);
                            acc = Some(match acc {
                                None => b,
                                Some(l) => self.x.concat(b, l),
                            });
                        }
                        // byte 0 must become the highest: acc was built from high to low
                        let r = acc.unwrap();
                        Ok(self.mk(r))
                    }
                    B::Cttz => {
                        let mut r = self.x.konst(w as u128, w);
                        for i in (0..w).rev() {
                            let b = self.x.extract(e, i, 1);
                            let k = self.x.konst(i as u128, w);
                            r = self.x.ite(b, k, r);
                        }
                        Ok(self.mk(r))
                    }
                    B::Ctlz => {
                        let mut r = self.x.konst(w as u128, w);
                        for i in 0..w {
                            let b = self.x.extract(e, i, 1);
                            let k = self.x.konst((w - 1 - i) as u128, w);
                            r = self.x.ite(b, k, r);
                        }
                        Ok(self.mk(r))
                    }
                    B::Ctpop => {
                        let mut r = self.x.konst(0, w);
                        for i in 0..w {
                            let b = self.x.extract(e, i, 1);
                            let z = self.x.zext(b, w);
                            r = self.x.bin(Op::Add, r, z);
                        }
                        Ok(self.mk(r))
                    }
                    _ => {
                        let c = self.concretize(e)?;
                        Ok(Val::C(conc(c)))
                    }
                }
            }
            Val::W(x) => {
                let x = **x;
                let r = match which {
                    B::Ctlz => (x.leading_zeros() - (128 - w)) as u128,
                    B::Cttz => (x.trailing_zeros()).min(w) as u128,
                    B::Ctpop => x.count_ones() as u128,
                    B::Bswap => x.swap_bytes() >> (128 - w),
                    _ => x.reverse_bits() >> (128 - w),
                };
                Ok(crate::parse::mkc(r, w))
            }
            _ => self.unsupported("bit function"),
        }
    }
    fn overflow(&mut self, op: BinOp, signed: bool, w: u32, a: &Val, b: &Val) -> X<(Val, Val)> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (r, o): (u64, bool);
            if signed {
                let (sx, sy) = (crate::parse::sext(*x, w) as i128, crate::parse::sext(*y, w) as i128);
                let f = match op {
                    BinOp::Add => sx + sy,
                    BinOp::Sub => sx - sy,
                    _ => sx * sy,
                };
                r = f as u64 & wmask(w);
                o = crate::parse::sext(r, w) as i128 != f;
            } else {
                let (ux, uy) = (*x as i128, *y as i128);
                let f = match op {
                    BinOp::Add => ux + uy,
                    BinOp::Sub => ux - uy,
                    _ => ((*x as u128).wrapping_mul(*y as u128)) as i128,
                };
                r = f as u64 & wmask(w);
                o = if op == BinOp::Mul { (*x as u128) * (*y as u128) > wmask(w) as u128 } else { f < 0 || f > wmask(w) as i128 };
            }
            return Ok((Val::C(r), Val::C(o as u64)));
        }
        let (ea, eb) = (self.to_e(a, w), self.to_e(b, w));
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            _ => Op::Mul,
        };
        let r = self.x.bin(o, ea, eb);
        let of = if !signed && op == BinOp::Add {
            self.x.bin(Op::Ult, r, ea)
        } else if !signed && op == BinOp::Sub {
            self.x.bin(Op::Ult, ea, eb)
        } else {
            let ww = if op == BinOp::Mul { 2 * w } else { w + 1 };
            if ww > 128 {
                return self.unsupported("wide overflow op");
            }
            let (xa, xb) = if signed { (self.x.sext(ea, ww), self.x.sext(eb, ww)) } else { (self.x.zext(ea, ww), self.x.zext(eb, ww)) };
            let f = self.x.bin(o, xa, xb);
            let back = if signed { self.x.sext(r, ww) } else { self.x.zext(r, ww) };
            let e = self.x.eq(f, back);
            self.x.not(e)
        };
        Ok((self.mk(r), self.mk(of)))
    }
    fn set_errno(&mut self, e: u64) -> X<()> {
        let a = self.m.errno_addr;
        let r = self.st.mem.write_c(a, e, 4);
        self.merr(r)
    }

    pub fn call_builtin(&mut self, b: u32, a: Vec<Val>, args: &[(TyId, Opnd)], rt: TyId, dst: u32, cont: Option<u32>) -> X<bool> {
        let kind = self.bt[b as usize].clone();
        let m = self.m;
        let ret: Val = match kind {
            B::Nop => Val::C(0),
            B::Assume => Val::C(0),
            B::MemCpy | B::LibMemCpy => {
                let n = self.concretize_v(&a[2])?;
                if n > 0 {
                    let (d, s) = (self.addr(&a[0])?, self.addr(&a[1])?);
                    let r = self.st.mem.copy(d, s, n);
                    self.merr(r)?;
                }
                a[0].clone()
            }
            B::MemSet | B::LibMemSet => {
                let n = self.concretize_v(&a[2])?;
                if n > 0 {
                    let d = self.addr(&a[0])?;
                    let v = if kind == B::LibMemSet { self.cast_trunc(&a[1], 32, 8)? } else { a[1].clone() };
                    match v {
                        Val::C(c) => {
                            let r = self.st.mem.fill(d, c as u8, n);
                            self.merr(r)?;
                        }
                        Val::S(e) => {
                            for i in 0..n {
                                let r = self.st.mem.set_byte(d + i, Err(e));
                                self.merr(r)?;
                            }
                        }
                        _ => return self.unsupported("memset"),
                    }
                }
                a[0].clone()
            }
            B::MinMax(p) => self.lanewise(args[0].0, &a, &mut |s, w, l| s.minmax(p, w, &l[0], &l[1]))?,
            B::Ctlz | B::Cttz | B::Ctpop | B::Bswap | B::Bitreverse => {
                let k = kind.clone();
                self.lanewise(args[0].0, &a, &mut |s, w, l| s.bits_fn(&k, w, &l[0]))?
            }
            B::Fshl | B::Fshr => {
                let w = m.types.bits(args[0].0) as u32;
                let sh = (self.concretize_v(&a[2])? % w as u64) as u32;
                if w > 64 {
                    return self.unsupported("wide fsh");
                }
                let (h, l) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
                let lo = if kind == B::Fshl { w - sh } else { sh };
                let r = if kind == B::Fshl && sh == 0 {
                    h
                } else if kind == B::Fshr && sh == 0 {
                    l
                } else {
                    let c = self.x.concat(h, l);
                    self.x.extract(c, lo, w)
                };
                self.mk(r)
            }
            B::Abs => self.lanewise(args[0].0, &a[..1].to_vec(), &mut |s, w, l| match &l[0] {
                Val::C(x) => Ok(Val::C(crate::parse::sext(*x, w).unsigned_abs() & wmask(w))),
                v => {
                    let e = s.to_e(v, w);
                    let z = s.x.konst(0, w);
                    let n = s.x.bin(Op::Sub, z, e);
                    let c = s.x.bin(Op::Slt, e, z);
                    let r = s.x.ite(c, n, e);
                    Ok(s.mk(r))
                }
            })?,
            B::Ovf(op, sg) => {
                let w = m.types.bits(args[0].0) as u32;
                let (r, o) = self.overflow(op, sg, w, &a[0], &a[1])?;
                Val::Agg(Arc::new(vec![r, o]))
            }
            B::Sat(op, sg) => self.lanewise(args[0].0, &a, &mut |s, w, l| {
                let (r, o) = s.overflow(op, sg, w, &l[0], &l[1])?;
                if sg {
                    // on overflow: sign of the first operand decides
                    let ea = s.to_e(&l[0], w);
                    let z = s.x.konst(0, w);
                    let neg = s.x.bin(Op::Slt, ea, z);
                    let mn = s.x.konst(1u128 << (w - 1), w);
                    let mx = s.x.konst((1u128 << (w - 1)) - 1, w);
                    let lim = s.x.ite(neg, mn, mx);
                    let (er, eo) = (s.to_e(&r, w), s.to_e(&o, 1));
                    let q = s.x.ite(eo, lim, er);
                    return Ok(s.mk(q));
                }
                let lim = if op == BinOp::Add { wmask(w) } else { 0 };
                match (&r, &o) {
                    (Val::C(_), Val::C(o)) => Ok(if *o == 1 { Val::C(lim) } else { r }),
                    _ => {
                        let k = s.x.konst(lim as u128, w);
                        let (er, eo) = (s.to_e(&r, w), s.to_e(&o, 1));
                        let q = s.x.ite(eo, k, er);
                        Ok(s.mk(q))
                    }
                }
            })?,
            B::Cmp3(sg) => {
                let w = m.types.bits(args[0].0) as u32;
                let rw = m.types.bits(rt) as u32;
                let (x, y) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
                let op = if sg { Op::Slt } else { Op::Ult };
                let lt = self.x.bin(op, x, y);
                let gt = self.x.bin(op, y, x);
                let (k1, k0, km) = (self.x.konst(1, rw), self.x.konst(0, rw), self.x.konst(!0, rw));
                let i = self.x.ite(gt, k1, k0);
                let r = self.x.ite(lt, km, i);
                self.mk(r)
            }
            B::TlsAddr => match &a[0] {
                Val::C(p) => Val::C(p + self.tls_offset()),
                _ => return self.unsupported("tls address"),
            },
            B::Zero => m.types.zero(rt),
            B::Arg0 => a[0].clone(),
            B::Trap => return Err(End::Abort(format!("trap at {}", self.stack_names()))),
            B::FAbs => {
                let c = self.concretize_v(&a[0])?;
                Val::C(match m.types.get(args[0].0) {
                    Type::Double => f64::from_bits(c).abs().to_bits(),
                    _ => f32::from_bits(c as u32).abs().to_bits() as u64,
                })
            }
            B::Reduce(op) => match &a[0] {
                Val::Agg(v) => {
                    let w = m.types.bits(rt) as u32;
                    let v = v.clone();
                    let mut r = v[0].clone();
                    for k in 1..v.len() {
                        r = self.bin_int(op, w, &r, &v[k])?;
                    }
                    r
                }
                _ => return self.unsupported("reduce"),
            },
            B::ReduceMinMax(p) => match &a[0] {
                Val::Agg(v) => {
                    let w = m.types.bits(rt) as u32;
                    let v = v.clone();
                    let mut r = v[0].clone();
                    for k in 1..v.len() {
                        r = self.minmax(p, w, &r, &v[k])?;
                    }
                    r
                }
                _ => return self.unsupported("reduce"),
            },
            B::ObjSize => Val::C(wmask(m.types.bits(rt) as u32)),
            B::Bcmp => {
                let n = self.concretize_v(&a[2])?;
                let mut c = self.x.konst(1, 1);
                if n > 0 {
                    let (p, q) = (self.addr(&a[0])?, self.addr(&a[1])?);
                    for i in 0..n {
                        let (x, y) = (self.byte_e(p + i)?, self.byte_e(q + i)?);
                        let e = self.x.eq(x, y);
                        if self.x.as_const(e) == Some(0) {
                            c = e;
                            break;
                        }
                        c = self.x.bin(Op::And, c, e);
                        if self.x.as_const(c) == Some(0) {
                            break;
                        }
                    }
                }
                let (z, o) = (self.x.konst(0, 32), self.x.konst(1, 32));
                let r = self.x.ite(c, z, o);
                self.mk(r)
            }
            B::Memcmp => {
                let n = self.concretize_v(&a[2])?;
                let mut r = self.x.konst(0, 32);
                if n > 0 {
                    let (p, q) = (self.addr(&a[0])?, self.addr(&a[1])?);
                    // find the first pair of bytes that differ for sure: nothing after it matters
                    let mut k = n;
                    for i in 0..n {
                        let (x, y) = (self.byte_e(p + i)?, self.byte_e(q + i)?);
                        let e = self.x.eq(x, y);
                        if self.x.as_const(e) == Some(0) {
                            k = i + 1;
                            break;
                        }
                    }
                    for i in (0..k).rev() {
                        let (x, y) = (self.byte_e(p + i)?, self.byte_e(q + i)?);
                        let e = self.x.eq(x, y);
                        let l = self.x.bin(Op::Ult, x, y);
                        let (mn, pl) = (self.x.konst(!0, 32), self.x.konst(1, 32));
                        let d = self.x.ite(l, mn, pl);
                        r = self.x.ite(e, r, d);
                    }
                }
                self.mk(r)
            }
            B::Memchr => {
                let n = self.concretize_v(&a[2])?;
                let p = self.addr(&a[0])?;
                let c = self.to_e(&a[1], 32);
                let c = self.x.extract(c, 0, 8);
                let mut r = Val::C(0);
                for i in 0..n {
                    let b = self.byte_e(p + i)?;
                    let e = self.x.eq(b, c);
                    if self.decide(e)? {
                        r = Val::C(p + i);
                        break;
                    }
                }
                r
            }
            B::Strlen => {
                let p = self.addr(&a[0])?;
                let mut i = 0;
                loop {
                    let b = self.byte_e(p + i)?;
                    let z = self.x.konst(0, 8);
                    let e = self.x.eq(b, z);
                    if self.decide(e)? {
                        break;
                    }
                    i += 1;
                    if i > 100_000 {
                        return self.unsupported("strlen");
                    }
                }
                Val::C(i)
            }
            B::Malloc => {
                let n = self.concretize_v(&a[0])?;
                if n > 1 << 28 {
                    Val::C(0)
                } else {
                    Val::C(self.alloc(n, 16))
                }
            }
            B::Calloc => {
                let n = self.concretize_v(&a[0])?.wrapping_mul(self.concretize_v(&a[1])?);
                if n > 1 << 28 {
                    Val::C(0)
                } else {
                    let p = self.alloc(n, 16);
                    let r = self.st.mem.fill(p, 0, n);
                    self.merr(r)?;
                    Val::C(p)
                }
            }
            B::Realloc => {
                let p = self.addr(&a[0])?;
                let n = self.concretize_v(&a[1])?;
                if n > 1 << 28 {
                    Val::C(0)
                } else if p == 0 {
                    Val::C(self.alloc(n, 16))
                } else {
                    let r = self.st.mem.read_c(p - 16, 8);
                    let old = self.merr(r)?.unwrap_or(0);
                    let q = self.alloc(n, 16);
                    let r = self.st.mem.copy(q, p, old.min(n));
                    self.merr(r)?;
                    Val::C(q)
                }
            }
            B::Free => Val::C(0),
            B::PosixMemalign => {
                let out = self.addr(&a[0])?;
                let al = self.concretize_v(&a[1])?;
                let n = self.concretize_v(&a[2])?;
                let p = self.alloc(n, al);
                let r = self.st.mem.write_c(out, p, 8);
                self.merr(r)?;
                Val::C(0)
            }
            B::AlignedAlloc => {
                let al = self.concretize_v(&a[0])?;
                let n = self.concretize_v(&a[1])?;
                Val::C(self.alloc(n, al))
            }
            B::Errno => Val::C(m.errno_addr),
            B::Syscall => {
                let nr = self.concretize_v(&a[0])?;
                match nr {
                    332 => {
                        self.set_errno(38)?;
                        Val::C(!0)
                    }
                    318 => {
                        let p = self.addr(&a[1])?;
                        let n = self.concretize_v(&a[2])?;
                        let r = self.st.mem.fill(p, 0, n);
                        self.merr(r)?;
                        Val::C(n)
                    }
                    186 => Val::C(1000 + self.st.cur as u64),
                    202 => {
                        // futex wait (0, 9): blocked while the word has the value; wake: nothing to do
                        let op = self.concretize_v(&a[2])? & 127;
                        if op == 0 || op == 9 {
                            let p = self.addr(&a[1])?;
                            let w = self.concretize_v(&a[3])? as u32;
                            if self.st.mem.read_c(p, 4).ok().flatten() == Some(w as u64) {
                                self.finish_call(dst, Val::C(0), cont);
                                self.thread_wait(p, w)?;
                                return Ok(true);
                            }
                        }
                        Val::C(0)
                    }
                    n => return self.unsupported(&format!("syscall {}", n)),
                }
            }
            B::Sysconf => {
                let n = self.concretize_v(&a[0])?;
                Val::C(match n {
                    30 => 4096,
                    84 | 83 => 1,
                    _ => 1024,
                })
            }
            B::SchedAff => {
                let n = self.concretize_v(&a[1])?;
                let p = self.addr(&a[2])?;
                let r = self.st.mem.fill(p, 0, n);
                self.merr(r)?;
                let r = self.st.mem.write_c(p, 1, 1);
                self.merr(r)?;
                Val::C(0)
            }
            B::GetRandom => {
                let p = self.addr(&a[0])?;
                let n = self.concretize_v(&a[1])?;
                let r = self.st.mem.fill(p, 0, n);
                self.merr(r)?;
                Val::C(n)
            }
            B::ClockGettime => {
                let p = self.addr(&a[1])?;
                let r = self.st.mem.write_c(p, 1_700_000_000, 8);
                self.merr(r)?;
                let r = self.st.mem.write_c(p + 8, 0, 8);
                self.merr(r)?;
                Val::C(0)
            }
            B::Ret0 => Val::C(0),
            B::RetM1 => {
                self.set_errno(38)?;
                let w = m.types.bits(rt) as u32;
                Val::C(if matches!(m.types.get(rt), Type::Ptr) { !0 } else { wmask(w) })
            }
            B::Abort => return Err(End::Abort(format!("abort at {}", self.stack_names()))),
            B::Write => {
                // output: pretend everything was written
                let n = self.concretize_v(&a[2])?;
                Val::C(n)
            }
            B::PthreadSelf => Val::C(1000 + self.st.cur as u64),
            B::PthreadKeyCreate => {
                let p = self.addr(&a[0])?;
                let r = self.st.mem.write_c(p, 1, 4);
                self.merr(r)?;
                Val::C(0)
            }
            B::PthreadGetspecific => Val::C(0),
            B::PthreadSetspecific => Val::C(0),
            B::Panic(s) => return Err(End::Panic(format!("{} at {}", s, self.stack_names()))),
            B::HashWrite => Val::C(0),
            B::HashStr(k) => {
                if self.params.contains_key("anyhash") {
                    let (p, n, h) = match k {
                        0 => (self.addr(&a[0])?, self.concretize_v(&a[1])?, self.addr(&a[2])?),
                        _ => {
                            let mut p = self.addr(&a[0])?;
                            let word = |s: &Self, at: u64| -> X<u64> {
                                let r = s.st.mem.read_c(at, 8);
                                match s.merr(r)? {
                                    Some(v) => Ok(v),
                                    None => s.unsupported("hash of a symbolic header"),
                                }
                            };
                            if k == 3 {
                                p = word(self, p)?;
                            }
                            if k >= 2 {
                                p += 8;
                            }
                            (word(self, p)?, word(self, p + 8)?, self.addr(&a[1])?)
                        }
                    };
                    let r = self.st.mem.read_c(h, 8);
                    let mut x = self.merr(r)?.unwrap_or(0);
                    // a table that a JSON parser fills is an index beside the entries in their order
                    let own = match self.st.tables.iter().find(|t| t.0 == x) {
                        Some(t) => t.1,
                        None => {
                            let own = !self.st.symhash || self.st.frames.iter().any(|f| {
                                let n = &self.m.funcs[f.func as usize].name;
                                let n = &n[..n.rfind("Cs").unwrap_or(n.len())];
                                n.contains("10serde_json") || n.contains("12jsonc_parser")
                            });
                            Rc::make_mut(&mut self.st.tables).push((x, own));
                            own
                        }
                    };
                    for i in 0..n {
                        let r = self.st.mem.byte(p + i);
                        let b = match self.merr(r)? {
                            Ok(b) => b,
                            Err(_) => return self.unsupported("hash of symbolic text"),
                        };
                        x = (x ^ b as u64 ^ 0x100).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(7);
                    }
                    let r = self.st.mem.write_c(h, x, 8);
                    self.merr(r)?;
                    let r = self.st.mem.write_c(h + 8, if own { 0 } else { HASHED_TEXT }, 8);
                    self.merr(r)?;
                }
                Val::C(0)
            }
            B::SymHash => {
                self.st.symhash = self.concretize_v(&a[0])? != 0;
                Val::C(0)
            }
            B::HashFinish => {
                let text = self.params.contains_key("anyhash") && {
                    let h = self.addr(&a[0])?;
                    let r = self.st.mem.read_c(h + 8, 8);
                    self.merr(r)? == Some(HASHED_TEXT)
                };
                if text {
                    // the hash of every key is arbitrary, but the same whenever it is asked for
                    let h = self.addr(&a[0])?;
                    let r = self.st.mem.read_c(h, 8);
                    let x = match self.merr(r)? {
                        Some(x) => x,
                        None => return self.unsupported("hash of symbolic text"),
                    };
                    let v = match self.st.hashes.iter().find(|y| y.0 == x) {
                        Some(y) => y.1,
                        None => {
                            let v = self.new_var("hash".to_string());
                            let mask: Mask = [0xf, 0, 0, 0];
                            Rc::make_mut(&mut self.st.dom)[v as usize] = mask;
                            let mv = self.st.model[v as usize];
                            if self.st.replay.is_empty() && !mask_get(&mask, mv) {
                                Rc::make_mut(&mut self.st.model)[v as usize] = 0;
                            }
                            Rc::make_mut(&mut self.st.hashes).push((x, v));
                            v
                        }
                    };
                    let e = self.x.var(v);
                    let e = self.x.zext(e, 64);
                    let k = self.x.konst(0x5151_5151_5151_5150, 64);
                    Val::S(self.x.bin(Op::Or, e, k))
                } else {
                    Val::C(0x5151_5151_5151_5151)
                }
            }
            B::SymU8 | B::SymBool | B::SymRange | B::SymIn => {
                let (p, n) = (self.addr(&a[0])?, self.concretize_v(&a[1])?);
                let name = self.cstr(p, n)?;
                let v = self.new_var(name);
                let mut mask = FULL;
                match kind {
                    B::SymBool => mask = [3, 0, 0, 0],
                    B::SymRange => {
                        let lo = self.concretize_v(&a[2])? as usize;
                        let hi = self.concretize_v(&a[3])? as usize;
                        mask = [0; 4];
                        for i in lo..=hi {
                            mask[i >> 6] |= 1 << (i & 63);
                        }
                    }
                    B::SymIn => {
                        let p = self.addr(&a[2])?;
                        let k = self.concretize_v(&a[3])?;
                        mask = [0; 4];
                        for i in 0..k {
                            let r = self.st.mem.byte(p + i);
                            match self.merr(r)? {
                                Ok(b) => mask[(b >> 6) as usize] |= 1 << (b & 63),
                                Err(_) => return self.unsupported("__sym_in with symbolic set"),
                            }
                        }
                    }
                    _ => {}
                }
                if mask_empty(&mask) {
                    return self.unsupported("empty symbolic domain");
                }
                Rc::make_mut(&mut self.st.dom)[v as usize] = mask;
                let mv = self.st.model[v as usize];
                if self.st.replay.is_empty() && !mask_get(&mask, mv) {
                    Rc::make_mut(&mut self.st.model)[v as usize] = mask_first(&mask).unwrap();
                }
                let e = self.x.var(v);
                if mask_count(&mask) == 1 {
                    Val::C(mask_first(&mask).unwrap() as u64)
                } else {
                    Val::S(e)
                }
            }
            B::SymAssume => {
                let ok = match &a[0] {
                    Val::C(c) => *c & 1 == 1,
                    v => {
                        let e = self.to_e(v, m.types.bits(args[0].0) as u32);
                        let e = self.x.extract(e, 0, 1);
                        self.assume(e)?
                    }
                };
                if !ok {
                    return Err(End::Pruned);
                }
                Val::C(0)
            }
            B::SymAssert => {
                self.st.asserts += 1;
                let (p, n) = (self.addr(&a[1])?, self.concretize_v(&a[2])?);
                match &a[0] {
                    Val::C(c) => {
                        self.stats.asserts += 1;
                        if *c & 1 == 0 {
                            let s = self.cstr(p, n)?;
                            return Err(End::Assert(s));
                        }
                    }
                    v => {
                        let e = self.to_e(v, m.types.bits(args[0].0) as u32);
                        let e = self.x.extract(e, 0, 1);
                        if let Some(mo) = self.prove(e)? {
                            let s = self.cstr(p, n)?;
                            self.st.model = mo;
                            return Err(End::Assert(s));
                        }
                    }
                }
                Val::C(0)
            }
            B::SymCover => {
                let (p, n) = (self.addr(&a[0])?, self.concretize_v(&a[1])?);
                let s = self.cstr(p, n)?;
                *self.stats.covers.entry(s).or_insert(0) += 1;
                Val::C(0)
            }
            B::SymNote => {
                let (p, n) = (self.addr(&a[0])?, self.concretize_v(&a[1])?);
                let k = self.cstr(p, n)?;
                let (p, n) = (self.addr(&a[2])?, self.concretize_v(&a[3])?);
                let mut v = vec![];
                for i in 0..n {
                    let r = self.st.mem.byte(p + i);
                    v.push(self.merr(r)?);
                }
                Rc::make_mut(&mut self.st.notes).push((k, v));
                Val::C(0)
            }
            B::SymNative => Val::C(0),
            B::SymParam => {
                let (p, n) = (self.addr(&a[0])?, self.concretize_v(&a[1])?);
                let k = self.cstr(p, n)?;
                match self.params.get(&k) {
                    Some(v) => Val::C(*v as u64),
                    None => a[2].clone(),
                }
            }
            B::SymConcrete => {
                let c = self.concretize_v(&a[0])?;
                Val::C(c)
            }
            B::SymLap => {
                self.st.steps = 0;
                Val::C(0)
            }
            B::SymDebug => {
                let (p, n) = (self.addr(&a[0])?, self.concretize_v(&a[1])?);
                let k = self.cstr(p, n)?;
                if std::env::var("SYM_DEBUG").is_ok() {
                    eprintln!("[debug] {}", k);
                }
                Val::C(0)
            }
            B::SymSpawn => {
                let f = self.addr(&a[0])?;
                let fid = match m.addr_func.get(&f) {
                    Some(Callee::Func(f)) => *f,
                    _ => return self.unsupported("spawn"),
                };
                self.spawn(fid, a[1].clone())?;
                Val::C(0)
            }
            B::SymJoin => {
                if !self.join()? {
                    return Ok(true);
                }
                Val::C(0)
            }
            B::SymYield => {
                self.finish_call(dst, Val::C(0), cont);
                self.thread_yield()?;
                return Ok(true);
            }
            B::Unknown => {
                let n = m.builtins[b as usize].clone();
                return self.unsupported(&format!("external function {}", n));
            }
        };
        self.finish_call(dst, ret, cont);
        Ok(true)
    }
    pub fn tls_offset(&self) -> u64 {
        (self.st.cur as u64) << 20
    }
}
