//! Every named constant of the public interface, by name.
use crate::json::J;
use crate::proj::w8;
use perf_event_data::*;

pub fn table(which: &str) -> J {
    let mut v: Vec<J> = vec![];
    let mut put = |n: &str, x: u64| v.push(J::A(vec![J::s(n), w8(x)]));
    if which == "flags" {
        put("SampleFlags.IP", SampleFlags::IP.bits());
        put("SampleFlags.TID", SampleFlags::TID.bits());
        put("SampleFlags.TIME", SampleFlags::TIME.bits());
        put("SampleFlags.ADDR", SampleFlags::ADDR.bits());
        put("SampleFlags.READ", SampleFlags::READ.bits());
        put("SampleFlags.CALLCHAIN", SampleFlags::CALLCHAIN.bits());
        put("SampleFlags.ID", SampleFlags::ID.bits());
        put("SampleFlags.CPU", SampleFlags::CPU.bits());
        put("SampleFlags.PERIOD", SampleFlags::PERIOD.bits());
        put("SampleFlags.STREAM_ID", SampleFlags::STREAM_ID.bits());
        put("SampleFlags.RAW", SampleFlags::RAW.bits());
        put("SampleFlags.BRANCH_STACK", SampleFlags::BRANCH_STACK.bits());
        put("SampleFlags.REGS_USER", SampleFlags::REGS_USER.bits());
        put("SampleFlags.STACK_USER", SampleFlags::STACK_USER.bits());
        put("SampleFlags.WEIGHT", SampleFlags::WEIGHT.bits());
        put("SampleFlags.DATA_SRC", SampleFlags::DATA_SRC.bits());
        put("SampleFlags.IDENTIFIER", SampleFlags::IDENTIFIER.bits());
        put("SampleFlags.TRANSACTION", SampleFlags::TRANSACTION.bits());
        put("SampleFlags.REGS_INTR", SampleFlags::REGS_INTR.bits());
        put("SampleFlags.PHYS_ADDR", SampleFlags::PHYS_ADDR.bits());
        put("SampleFlags.AUX", SampleFlags::AUX.bits());
        put("SampleFlags.CGROUP", SampleFlags::CGROUP.bits());
        put("SampleFlags.DATA_PAGE_SIZE", SampleFlags::DATA_PAGE_SIZE.bits());
        put("SampleFlags.CODE_PAGE_SIZE", SampleFlags::CODE_PAGE_SIZE.bits());
        put("SampleFlags.WEIGHT_STRUCT", SampleFlags::WEIGHT_STRUCT.bits());
        put("ReadFormat.TOTAL_TIME_ENABLED", ReadFormat::TOTAL_TIME_ENABLED.bits());
        put("ReadFormat.TOTAL_TIME_RUNNING", ReadFormat::TOTAL_TIME_RUNNING.bits());
        put("ReadFormat.ID", ReadFormat::ID.bits());
        put("ReadFormat.GROUP", ReadFormat::GROUP.bits());
        put("ReadFormat.LOST", ReadFormat::LOST.bits());
    } else if which == "made" {
        // values made by the constructors, of every pattern of bits
        for a in 0..32 {
            for b in 0..4 {
                put("MemSnoop", MemSnoop::new(a, b).bits() as u64);
            }
        }
        for v in 0..=255u8 {
            put("BranchType", BranchType::new(v).0 as u64);
            put("MemLevelNum", MemLevelNum::new(v).0 as u64);
            put("AuxPmuFormatType", AuxPmuFormatType::new(v).0 as u64);
        }
        for k in 0..16 {
            put("BpfEventType", BpfEventType::new(1 << k).0 as u64);
            put("KSymbolType", KSymbolType::new(1 << k).0 as u64);
        }
        for k in 0..64 {
            put("SampleRegsAbi", SampleRegsAbi::new(1 << k).0);
        }
    } else {
        put("AuxFlags.TRUNCATED", AuxFlags::TRUNCATED.bits() as u64);
        put("AuxFlags.OVERWRITE", AuxFlags::OVERWRITE.bits() as u64);
        put("AuxFlags.PARTIAL", AuxFlags::PARTIAL.bits() as u64);
        put("AuxFlags.COLLISION", AuxFlags::COLLISION.bits() as u64);
        put("AuxFlags.PMU_FORMAT_MASK", AuxFlags::PMU_FORMAT_MASK.bits() as u64);
        put("KSymbolFlags.UNREGISTER", KSymbolFlags::UNREGISTER.bits() as u64);
        put("MemOp.NA", MemOp::NA.bits() as u64);
        put("MemOp.LOAD", MemOp::LOAD.bits() as u64);
        put("MemOp.STORE", MemOp::STORE.bits() as u64);
        put("MemOp.PFETCH", MemOp::PFETCH.bits() as u64);
        put("MemOp.EXEC", MemOp::EXEC.bits() as u64);
        put("MemLevel.NA", MemLevel::NA.bits() as u64);
        put("MemLevel.HIT", MemLevel::HIT.bits() as u64);
        put("MemLevel.MISS", MemLevel::MISS.bits() as u64);
        put("MemLevel.L1", MemLevel::L1.bits() as u64);
        put("MemLevel.LFB", MemLevel::LFB.bits() as u64);
        put("MemLevel.L2", MemLevel::L2.bits() as u64);
        put("MemLevel.L3", MemLevel::L3.bits() as u64);
        put("MemLevel.LOC_RAM", MemLevel::LOC_RAM.bits() as u64);
        put("MemLevel.REM_RAM1", MemLevel::REM_RAM1.bits() as u64);
        put("MemLevel.REM_RAM2", MemLevel::REM_RAM2.bits() as u64);
        put("MemLevel.REM_CCE1", MemLevel::REM_CCE1.bits() as u64);
        put("MemLevel.REM_CCE2", MemLevel::REM_CCE2.bits() as u64);
        put("MemLevel.IO", MemLevel::IO.bits() as u64);
        put("MemLevel.UNC", MemLevel::UNC.bits() as u64);
        put("MemLock.NA", MemLock::NA.bits() as u64);
        put("MemLock.LOCKED", MemLock::LOCKED.bits() as u64);
        put("MemDtlb.NA", MemDtlb::NA.bits() as u64);
        put("MemDtlb.HIT", MemDtlb::HIT.bits() as u64);
        put("MemDtlb.MISS", MemDtlb::MISS.bits() as u64);
        put("MemDtlb.L1", MemDtlb::L1.bits() as u64);
        put("MemDtlb.L2", MemDtlb::L2.bits() as u64);
        put("MemDtlb.WK", MemDtlb::WK.bits() as u64);
        put("MemDtlb.OS", MemDtlb::OS.bits() as u64);
        put("MemSnoopX.FWD", MemSnoopX::FWD.bits() as u64);
        put("MemSnoopX.PEER", MemSnoopX::PEER.bits() as u64);
        put("MemBlk.NA", MemBlk::NA.bits() as u64);
        put("MemBlk.DATA", MemBlk::DATA.bits() as u64);
        put("MemBlk.ADDR", MemBlk::ADDR.bits() as u64);
        put("MemSnoop.NA", MemSnoop::NA.bits() as u64);
        put("MemSnoop.NONE", MemSnoop::NONE.bits() as u64);
        put("MemSnoop.HIT", MemSnoop::HIT.bits() as u64);
        put("MemSnoop.MISS", MemSnoop::MISS.bits() as u64);
        put("MemSnoop.HITM", MemSnoop::HITM.bits() as u64);
        put("MemSnoop.FWD", MemSnoop::FWD.bits() as u64);
        put("MemSnoop.PEER", MemSnoop::PEER.bits() as u64);
        put("Txn.ELISION", Txn::ELISION.bits() as u64);
        put("Txn.TRANSACTION", Txn::TRANSACTION.bits() as u64);
        put("Txn.SYNC", Txn::SYNC.bits() as u64);
        put("Txn.ASYNC", Txn::ASYNC.bits() as u64);
        put("Txn.RETRY", Txn::RETRY.bits() as u64);
        put("Txn.CONFLICT", Txn::CONFLICT.bits() as u64);
        put("Txn.CAPACITY_WRITE", Txn::CAPACITY_WRITE.bits() as u64);
        put("Txn.CAPACITY_READ", Txn::CAPACITY_READ.bits() as u64);
        put("Txn.ABORT_MASK", Txn::ABORT_MASK.bits() as u64);
        put("AuxPmuFormatType.CORESIGHT", AuxPmuFormatType::CORESIGHT.0 as u64);
        put("AuxPmuFormatType.CORESIGHT_RAW", AuxPmuFormatType::CORESIGHT_RAW.0 as u64);
        put("BpfEventType.UNKNOWN", BpfEventType::UNKNOWN.0 as u64);
        put("BpfEventType.PROG_LOAD", BpfEventType::PROG_LOAD.0 as u64);
        put("BpfEventType.PROG_UNLOAD", BpfEventType::PROG_UNLOAD.0 as u64);
        put("KSymbolType.UNKNOWN", KSymbolType::UNKNOWN.0 as u64);
        put("KSymbolType.BPF", KSymbolType::BPF.0 as u64);
        put("KSymbolType.OOL", KSymbolType::OOL.0 as u64);
        put("SampleRegsAbi.NONE", SampleRegsAbi::NONE.0 as u64);
        put("SampleRegsAbi.ABI_32", SampleRegsAbi::ABI_32.0 as u64);
        put("SampleRegsAbi.ABI_64", SampleRegsAbi::ABI_64.0 as u64);
        put("BranchType.UNKNOWN", BranchType::UNKNOWN.0 as u64);
        put("BranchType.COND", BranchType::COND.0 as u64);
        put("BranchType.UNCOND", BranchType::UNCOND.0 as u64);
        put("BranchType.IND", BranchType::IND.0 as u64);
        put("BranchType.CALL", BranchType::CALL.0 as u64);
        put("BranchType.IND_CALL", BranchType::IND_CALL.0 as u64);
        put("BranchType.RET", BranchType::RET.0 as u64);
        put("BranchType.SYSCALL", BranchType::SYSCALL.0 as u64);
        put("BranchType.COND_CALL", BranchType::COND_CALL.0 as u64);
        put("BranchType.COND_RET", BranchType::COND_RET.0 as u64);
        put("MemLevelNum.L1", MemLevelNum::L1.0 as u64);
        put("MemLevelNum.L2", MemLevelNum::L2.0 as u64);
        put("MemLevelNum.L3", MemLevelNum::L3.0 as u64);
        put("MemLevelNum.L4", MemLevelNum::L4.0 as u64);
        put("MemLevelNum.ANY_CACHE", MemLevelNum::ANY_CACHE.0 as u64);
        put("MemLevelNum.LFB", MemLevelNum::LFB.0 as u64);
        put("MemLevelNum.RAM", MemLevelNum::RAM.0 as u64);
        put("MemLevelNum.PMEM", MemLevelNum::PMEM.0 as u64);
        put("MemLevelNum.NA", MemLevelNum::NA.0 as u64);
    }
    J::A(v)
}
pub struct Table(pub J);
impl crate::proj::Proj for Table {
    fn proj(&self) -> J {
        self.0.clone()
    }
}
