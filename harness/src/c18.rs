//! C18: bit fields, flags and enumerations.
use crate::common::*;
use crate::gen::*;

fn word(be: bool, w: u64) -> W {
    let mut x = W::new(be, 8);
    x.u64(w);
    x
}
/// Parses a `T` out of the words.
fn get<T: for<'p> Parse<'p>>(be: bool, ws: &[u64]) -> Option<T> {
    let mut x = W::new(be, 24);
    for w in ws {
        x.u64(*w);
    }
    let mut p = Parser::new(&x.b[..], Cfg::default().get(en(be)));
    let r = p.parse::<T>().ok();
    check(p.parse_u8().is_err(), "all of it is consumed");
    r
}
fn bit(w: u64, i: u32) -> bool {
    w >> i & 1 != 0
}
macro_rules! flags {
    ($v:expr, $w:expr, $l:literal; $($f:expr => $b:expr),* $(,)?) => {{
        let (v, w): (_, u64) = ($v, $w);
        $( check(v.contains($f) == (w & $b == $b), $l); )*
    }};
}
macro_rules! consts {
    ($t:ty: $u:ty; $($f:ident = $b:expr),* $(,)?) => {{
        let x = sym_u64() as $u;
        $(
            check((<$t>::new(x) == <$t>::$f) == (x == $b), concat!(stringify!($t), "::", stringify!($f)));
        )*
        check(<$u>::from(<$t>::new(x)) == x, "an enumeration keeps any value");
        let y = sym_u64() as $u;
        check((<$t>::new(x) == <$t>::new(y)) == (x == y), "equality is equality of values");
    }};
}

entries! {
    fn c18_branch() {
        let be = choose(2) == 1;
        let w = [sym_u64(), sym_u64(), sym_u64()];
        let Some(b) = get::<BranchEntry>(be, &w) else { return check(false, "a branch entry is decoded") };
        check_branch(&b, &w);
        check((b.ty() == BranchType::COND) == (w[2] >> 20 & 15 == 1), "branch type COND");
        check((b.ty() == BranchType::COND_RET) == (w[2] >> 20 & 15 == 10), "branch type COND_RET");
        let c = b;
        check_branch(&c, &w);
        cover("branch");
    }
    // a branch stack that is read in place
    fn c18_branch_slice() {
        let n = choose(4);
        let be = choose(2) == 1;
        let mut w = W::new(be, 100);
        let mut e = vec![];
        for _ in 0..n {
            let x = [sym_u64(), sym_u64(), sym_u64()];
            w.u64(x[0]).u64(x[1]).u64(x[2]);
            e.push(x);
        }
        let mut p = Parser::new(&w.b[..], Cfg::default().get(en(be)));
        let Ok(s) = (unsafe { p.parse_slice::<BranchEntry>(n) }) else { return check(false, "a branch stack is decoded") };
        check(s.len() == n, "a branch stack is decoded");
        for i in 0..s.len() { check_branch(&s[i], &e[i]); }
        cover("branch");
    }
    fn c18_data_src() {
        let be = choose(2) == 1;
        let w = sym_u64();
        let Some(d) = get::<DataSource>(be, &[w]) else { return check(false, "a data source is decoded") };
        check(d.mem_op().bits() == w & 0x1f, "mem_op");
        check(d.mem_lvl().bits() == w >> 5 & 0x3fff, "mem_lvl");
        check(d.mem_snoop().bits() == (w & 0x1f << 19 | w & 3 << 38), "mem_snoop");
        check(d.mem_lock().bits() == w >> 24 & 3, "mem_lock");
        check(d.mem_dtlb().bits() == w >> 26 & 0x7f, "mem_dtlb");
        check(u8::from(d.mem_lvl_num()) as u64 == w >> 33 & 15, "mem_lvl_num");
        check(d.mem_remote() == bit(w, 37), "mem_remote");
        check(d.mem_blk().bits() == w >> 40 & 7, "mem_blk");
        check(d.mem_hops() as u64 == w >> 43 & 7, "mem_hops");
        flags!(d.mem_op(), w, "mem_op flags"; MemOp::NA => 1, MemOp::LOAD => 2, MemOp::STORE => 4, MemOp::PFETCH => 8, MemOp::EXEC => 16);
        flags!(d.mem_lvl(), w >> 5, "mem_lvl flags"; MemLevel::NA => 1, MemLevel::HIT => 2, MemLevel::MISS => 4, MemLevel::L1 => 8, MemLevel::LFB => 16,
            MemLevel::L2 => 32, MemLevel::L3 => 64, MemLevel::LOC_RAM => 128, MemLevel::REM_RAM1 => 256, MemLevel::REM_RAM2 => 512,
            MemLevel::REM_CCE1 => 1024, MemLevel::REM_CCE2 => 2048, MemLevel::IO => 4096, MemLevel::UNC => 8192);
        flags!(d.mem_snoop(), w >> 19, "mem_snoop flags"; MemSnoop::NA => 1, MemSnoop::NONE => 2, MemSnoop::HIT => 4, MemSnoop::MISS => 8, MemSnoop::HITM => 16,
            MemSnoop::FWD => 1 << 19, MemSnoop::PEER => 1 << 20);
        flags!(d.mem_lock(), w >> 24, "mem_lock flags"; MemLock::NA => 1, MemLock::LOCKED => 2);
        flags!(d.mem_dtlb(), w >> 26, "mem_dtlb flags"; MemDtlb::NA => 1, MemDtlb::HIT => 2, MemDtlb::MISS => 4, MemDtlb::L1 => 8, MemDtlb::L2 => 16, MemDtlb::WK => 32, MemDtlb::OS => 64);
        flags!(d.mem_blk(), w >> 40, "mem_blk flags"; MemBlk::NA => 1, MemBlk::DATA => 2, MemBlk::ADDR => 4);
        let n = w >> 33 & 15;
        check((d.mem_lvl_num() == MemLevelNum::L1) == (n == 1), "mem_lvl_num L1");
        check((d.mem_lvl_num() == MemLevelNum::NA) == (n == 15), "mem_lvl_num NA");
        cover("data_src");
    }
    fn c18_snoop() {
        let (a, b) = (sym_u64(), sym_u64());
        let s = MemSnoop::new(a, b);
        check(s.bits() == ((a & 31) << 19 | (b & 3) << 38), "MemSnoop::new");
        flags!(MemSnoopX::from_bits_retain(b), b, "mem_snoopx flags"; MemSnoopX::FWD => 1, MemSnoopX::PEER => 2);
        check(DataSource::default().mem_op().bits() == 0 && DataSource::default().mem_lvl().bits() == 0 && DataSource::default().mem_hops() == 0, "default data source");
        cover("snoop");
    }
    fn c18_txn() {
        let be = choose(2) == 1;
        let w = sym_u64();
        let Some(t) = get::<Txn>(be, &[w]) else { return check(false, "a transaction is decoded") };
        check(t.bits() == w, "no bit of a transaction is lost");
        check(t.abort() as u64 == w >> 32, "abort code");
        flags!(t, w, "transaction flags"; Txn::ELISION => 1, Txn::TRANSACTION => 2, Txn::SYNC => 4, Txn::ASYNC => 8, Txn::RETRY => 16, Txn::CONFLICT => 32,
            Txn::CAPACITY_WRITE => 64, Txn::CAPACITY_READ => 128, Txn::ABORT_MASK => 0xffff_ffff << 32);
        cover("txn");
    }
    fn c18_aux() {
        let be = choose(2) == 1;
        let w = sym_u64();
        let Some(t) = get::<AuxFlags>(be, &[w]) else { return check(false, "aux flags are decoded") };
        check(t.bits() == w, "no aux flag is lost");
        check(u8::from(t.pmu_format_type()) as u64 == w >> 8 & 0xff, "pmu_format_type");
        check((t.pmu_format_type() == AuxPmuFormatType::CORESIGHT) == (w >> 8 & 0xff == 0), "pmu format CORESIGHT");
        check((t.pmu_format_type() == AuxPmuFormatType::CORESIGHT_RAW) == (w >> 8 & 0xff == 1), "pmu format CORESIGHT_RAW");
        flags!(t, w, "aux flags"; AuxFlags::TRUNCATED => 1, AuxFlags::OVERWRITE => 2, AuxFlags::PARTIAL => 4, AuxFlags::COLLISION => 8, AuxFlags::PMU_FORMAT_MASK => 0xff00);
        cover("aux");
    }
    fn c18_enums() {
        consts!(BranchType: u8; UNKNOWN = 0, COND = 1, UNCOND = 2, IND = 3, CALL = 4, IND_CALL = 5, RET = 6, SYSCALL = 7, COND_CALL = 9, COND_RET = 10);
        consts!(MemLevelNum: u8; L1 = 1, L2 = 2, L3 = 3, L4 = 4, ANY_CACHE = 11, LFB = 12, RAM = 13, PMEM = 14, NA = 15);
        consts!(SampleRegsAbi: u64; NONE = 0, ABI_32 = 1, ABI_64 = 2);
        consts!(KSymbolType: u16; UNKNOWN = 0, BPF = 1, OOL = 2);
        consts!(BpfEventType: u16; UNKNOWN = 0, PROG_LOAD = 1, PROG_UNLOAD = 2);
        consts!(AuxPmuFormatType: u8; CORESIGHT = 0, CORESIGHT_RAW = 1);
        cover("enums");
    }
    // the 16 bit flags and the parsers of the enumerations
    fn c18_parsed() {
        let be = choose(2) == 1;
        let (a, b, c, d) = (sym_u16(), sym_u16(), sym_u64(), sym_u16());
        let mut w = W::new(be, 24);
        w.u16(a).u16(b).u64(c).u16(d).u16(SENTINEL as u16);
        let mut p = Parser::new(&w.b[..], Cfg::default().get(en(be)));
        match p.parse::<KSymbolType>() {
            Ok(x) => check(u16::from(x) == a, "KSymbolType"),
            Err(_) => check(false, "KSymbolType"),
        }
        match p.parse::<BpfEventType>() {
            Ok(x) => check(u16::from(x) == b, "BpfEventType"),
            Err(_) => check(false, "BpfEventType"),
        }
        match p.parse::<SampleRegsAbi>() {
            Ok(x) => check(u64::from(x) == c, "SampleRegsAbi"),
            Err(_) => check(false, "SampleRegsAbi"),
        }
        match p.parse::<KSymbolFlags>() {
            Ok(x) => {
                check(x.bits() == d, "KSymbolFlags");
                check(x.contains(KSymbolFlags::UNREGISTER) == (d & 1 != 0), "KSymbolFlags::UNREGISTER");
            }
            Err(_) => check(false, "KSymbolFlags"),
        }
        match p.parse_u16() {
            Ok(x) => check(x == SENTINEL as u16, "each of them consumes its size"),
            Err(_) => check(false, "each of them consumes its size"),
        }
        cover("parsed");
    }
    // flags of the configuration
    fn c18_config() {
        let w = sym_u64();
        let s = SampleFlags::from_bits_retain(w);
        flags!(s, w, "sample flags"; SampleFlags::IP => S_IP, SampleFlags::TID => S_TID, SampleFlags::TIME => S_TIME, SampleFlags::ADDR => S_ADDR, SampleFlags::READ => S_READ,
            SampleFlags::CALLCHAIN => S_CALLCHAIN, SampleFlags::ID => S_ID, SampleFlags::CPU => S_CPU, SampleFlags::PERIOD => S_PERIOD, SampleFlags::STREAM_ID => S_STREAM,
            SampleFlags::RAW => S_RAW, SampleFlags::BRANCH_STACK => S_BRANCH, SampleFlags::REGS_USER => S_REGS_USER, SampleFlags::STACK_USER => S_STACK_USER,
            SampleFlags::WEIGHT => S_WEIGHT, SampleFlags::DATA_SRC => S_DATA_SRC, SampleFlags::IDENTIFIER => S_IDENT, SampleFlags::TRANSACTION => S_TXN,
            SampleFlags::REGS_INTR => S_REGS_INTR, SampleFlags::PHYS_ADDR => S_PHYS, SampleFlags::AUX => S_AUX, SampleFlags::CGROUP => S_CGROUP,
            SampleFlags::DATA_PAGE_SIZE => S_DPAGE, SampleFlags::CODE_PAGE_SIZE => S_CPAGE, SampleFlags::WEIGHT_STRUCT => S_WSTRUCT);
        let r = ReadFormat::from_bits_retain(w);
        flags!(r, w, "read flags"; ReadFormat::TOTAL_TIME_ENABLED => R_TE, ReadFormat::TOTAL_TIME_RUNNING => R_TR, ReadFormat::ID => R_ID, ReadFormat::GROUP => R_GROUP, ReadFormat::LOST => R_LOST);
        check(ReadFormat::all().bits() == 31 && SampleFlags::all().bits() == (1 << 25) - 1, "all flags");
        cover("config");
    }
}
