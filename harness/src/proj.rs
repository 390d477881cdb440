//! Projection of decoded values to the shapes the specification uses: machine
//! words as little-endian byte lists, options as lists of at most one element.
use perf_event_data as ped;
use perf_event_open_sys::bindings;
use ped::*;
use std::borrow::Cow;

use crate::json::J;

pub fn w8(x: u64) -> J {
    J::bytes(&x.to_le_bytes())
}
pub fn w4(x: u32) -> J {
    J::bytes(&x.to_le_bytes())
}
pub fn w2(x: u16) -> J {
    J::bytes(&x.to_le_bytes())
}
fn o8(x: Option<u64>) -> J {
    J::opt(x.map(w8))
}
fn o4(x: Option<u32>) -> J {
    J::opt(x.map(w4))
}
fn n(x: u64) -> J {
    J::N(x.min(1 << 30) as i64)
}

/// (field, address, length in bytes) of the data a value refers to.
pub type Views = Vec<(&'static str, *const u8, usize)>;
/// A deferred projection of an owned copy.
pub type Later = Box<dyn Fn() -> J>;

/// `{:?}` and `{:#?}`
pub fn both<T: std::fmt::Debug>(x: &T) -> Option<(String, String)> {
    Some((format!("{x:?}"), format!("{x:#?}")))
}

pub trait Proj {
    fn proj(&self) -> J;
    fn views(&self, _out: &mut Views) {}
    fn dbg(&self) -> Option<(String, String)> {
        None
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        vec![]
    }
    fn owned(&self) -> Vec<(&'static str, Later)> {
        vec![]
    }
}

macro_rules! word_proj {
    ($($t:ty),*) => {$(
        impl Proj for $t {
            fn proj(&self) -> J { J::bytes(&self.to_le_bytes()) }
        }
    )*};
}
word_proj!(u8, u16, u32, u64);

impl<const N: usize> Proj for [u8; N] {
    fn proj(&self) -> J {
        J::bytes(self)
    }
}
impl Proj for Cow<'static, [u8]> {
    fn proj(&self) -> J {
        J::bytes(self)
    }
    fn views(&self, out: &mut Views) {
        out.push(("v", self.as_ptr(), self.len()));
    }
}
pub struct Elems<'a, T: Clone>(pub Cow<'a, [T]>);
impl<T: Proj + Clone> Proj for Elems<'static, T> {
    fn proj(&self) -> J {
        J::A(self.0.iter().map(Proj::proj).collect())
    }
    fn views(&self, out: &mut Views) {
        out.push(("v", self.0.as_ptr() as *const u8, std::mem::size_of_val(&*self.0)));
    }
}
impl<T: Proj> Proj for Option<T> {
    fn proj(&self) -> J {
        J::opt(self.as_ref().map(Proj::proj))
    }
    fn views(&self, out: &mut Views) {
        if let Some(x) = self {
            x.views(out)
        }
    }
}
impl Proj for NamespaceEntry {
    fn proj(&self) -> J {
        J::obj(vec![("dev", w8(self.dev)), ("inode", w8(self.inode))])
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
}
impl Proj for bindings::perf_event_header {
    fn proj(&self) -> J {
        J::obj(vec![("ty", w4(self.type_)), ("misc", w2(self.misc)), ("size", w2(self.size))])
    }
}
impl Proj for BranchEntry {
    fn proj(&self) -> J {
        J::obj(vec![
            ("from", w8(self.from())),
            ("to", w8(self.to())),
            ("mispred", J::N(self.mispred() as i64)),
            ("predicted", J::N(self.predicted() as i64)),
            ("in_tx", J::N(self.in_tx() as i64)),
            ("abort", J::N(self.abort() as i64)),
            ("cycles", J::N(self.cycles() as i64)),
            ("ty", J::N(self.ty().0 as i64)),
        ])
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
}
impl Proj for DataSource {
    fn proj(&self) -> J {
        J::obj(vec![
            ("op", n(self.mem_op().bits())),
            ("lvl", n(self.mem_lvl().bits())),
            ("snoop", w8(self.mem_snoop().bits())),
            ("lock", n(self.mem_lock().bits())),
            ("dtlb", n(self.mem_dtlb().bits())),
            ("lvl_num", n(self.mem_lvl_num().0 as u64)),
            ("remote", J::N(self.mem_remote() as i64)),
            ("blk", n(self.mem_blk().bits())),
            ("hops", n(self.mem_hops() as u64)),
        ])
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
}
impl Proj for Txn {
    fn proj(&self) -> J {
        J::obj(vec![("bits", w8(self.bits())), ("abort", w4(self.abort()))])
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
}
impl Proj for AuxFlags {
    fn proj(&self) -> J {
        J::obj(vec![("bits", w8(self.bits())), ("fmt", J::N(self.pmu_format_type().0 as i64))])
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
}
impl Proj for SampleRegsAbi {
    fn proj(&self) -> J {
        w8(self.0)
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
}
impl Proj for BpfEventType {
    fn proj(&self) -> J {
        w2(self.0)
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
}
impl Proj for KSymbolType {
    fn proj(&self) -> J {
        w2(self.0)
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
}
impl Proj for KSymbolFlags {
    fn proj(&self) -> J {
        w2(self.bits())
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
}
impl Proj for GroupEntry {
    fn proj(&self) -> J {
        J::obj(vec![("value", w8(self.value())), ("id", o8(self.id())), ("lost", o8(self.lost()))])
    }
}
impl Proj for ReadValue {
    fn proj(&self) -> J {
        J::obj(vec![
            ("value", w8(self.value())),
            ("te", o8(self.time_enabled())),
            ("tr", o8(self.time_running())),
            ("id", o8(self.id())),
            ("lost", o8(self.lost())),
        ])
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        vec![
            ("clone", self.clone().proj()),
            ("group", ReadGroup::from(self.clone()).proj()),
            (
                "regroup",
                match ReadValue::try_from(ReadGroup::from(self.clone())) {
                    Ok(v) => v.proj(),
                    Err(_) => J::s("refused"),
                },
            ),
        ]
    }
}
impl<'a> Proj for ReadGroup<'a> {
    fn proj(&self) -> J {
        J::obj(vec![
            ("te", o8(self.time_enabled())),
            ("tr", o8(self.time_running())),
            ("n", n(self.len() as u64)),
            ("e", J::A(self.entries().map(|e| e.proj()).collect())),
        ])
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        vec![("clone", self.clone().proj()), ("owned", self.clone().into_owned().proj())]
    }
    fn owned(&self) -> Vec<(&'static str, Later)> {
        let g = self.clone().into_owned();
        vec![("group", Box::new(move || g.proj()))]
    }
}
impl<'a> Proj for Registers<'a> {
    fn proj(&self) -> J {
        J::obj(vec![
            ("abi", w8(self.abi.0)),
            ("mask", w8(self.mask)),
            ("regs", J::A(self.regs.iter().map(|&r| w8(r)).collect())),
        ])
    }
    fn views(&self, out: &mut Views) {
        out.push(("regs", self.regs.as_ptr() as _, self.regs.len() * 8));
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        vec![("clone", self.clone().proj())]
    }
}
impl Proj for SampleId {
    fn proj(&self) -> J {
        J::obj(vec![
            ("pid", o4(self.pid())),
            ("tid", o4(self.tid())),
            ("time", o8(self.time())),
            ("id", o8(self.id())),
            ("stream_id", o8(self.stream_id())),
            ("cpu", o4(self.cpu())),
        ])
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        let c = *self;
        #[allow(clippy::clone_on_copy)]
        let d = self.clone();
        vec![("copy", c.proj()), ("clone", d.proj())]
    }
}
impl Proj for RecordMetadata {
    fn proj(&self) -> J {
        J::obj(vec![
            ("ty", w4(self.ty())),
            ("misc", w2(self.misc())),
            ("sid", self.sample_id().proj()),
        ])
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        vec![("clone", self.clone().proj())]
    }
}
impl Proj for bindings::perf_event_attr {
    fn proj(&self) -> J {
        unsafe {
            J::obj(vec![
                ("type", w4(self.type_)),
                ("size", w4(self.size)),
                ("config", w8(self.config)),
                ("sample_period", w8(self.__bindgen_anon_1.sample_period)),
                ("sample_type", w8(self.sample_type)),
                ("read_format", w8(self.read_format)),
                ("flags", w8(self._bitfield_1.get(0, 64))),
                ("wakeup", w4(self.__bindgen_anon_2.wakeup_events)),
                ("bp_type", w4(self.bp_type)),
                ("config1", w8(self.__bindgen_anon_3.config1)),
                ("config2", w8(self.__bindgen_anon_4.config2)),
                ("branch_sample_type", w8(self.branch_sample_type)),
                ("sample_regs_user", w8(self.sample_regs_user)),
                ("sample_stack_user", w4(self.sample_stack_user)),
                ("clockid", w4(self.clockid as u32)),
                ("sample_regs_intr", w8(self.sample_regs_intr)),
                ("aux_watermark", w4(self.aux_watermark)),
                ("sample_max_stack", w2(self.sample_max_stack)),
                ("aux_sample_size", w4(self.aux_sample_size)),
                ("sig_data", w8(self.sig_data)),
                ("config3", w8(self.config3)),
            ])
        }
    }
}

fn t(name: &str, f: Vec<(&str, J)>) -> J {
    let mut v = vec![("t", J::s(name))];
    v.extend(f);
    J::obj(v)
}

impl<'a> Proj for Mmap<'a> {
    fn proj(&self) -> J {
        t("Mmap", vec![
            ("pid", w4(self.pid)),
            ("tid", w4(self.tid)),
            ("addr", w8(self.addr)),
            ("len", w8(self.len)),
            ("pgoff", w8(self.pgoff)),
            ("filename", J::bytes(&self.filename)),
        ])
    }
    fn views(&self, out: &mut Views) {
        out.push(("filename", self.filename.as_ptr(), self.filename.len()));
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        vec![
            ("clone", self.clone().proj()),
            ("owned", self.clone().into_owned().proj()),
            ("record", Record::from(self.clone()).proj()),
            ("os", {
                use std::os::unix::ffi::OsStrExt;
                J::bytes(self.filename_os().as_bytes())
            }),
        ]
    }
    fn owned(&self) -> Vec<(&'static str, Later)> {
        let m = self.clone().into_owned();
        vec![("owned", Box::new(move || m.proj()))]
    }
}
impl Proj for Lost {
    fn proj(&self) -> J {
        t("Lost", vec![("id", w8(self.id)), ("lost", w8(self.lost))])
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        let c = *self;
        vec![("copy", c.proj()), ("record", Record::from(*self).proj())]
    }
}
impl<'a> Proj for Comm<'a> {
    fn proj(&self) -> J {
        t("Comm", vec![
            ("pid", w4(self.pid)),
            ("tid", w4(self.tid)),
            ("comm", J::bytes(&self.comm)),
        ])
    }
    fn views(&self, out: &mut Views) {
        out.push(("comm", self.comm.as_ptr(), self.comm.len()));
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        vec![
            ("clone", self.clone().proj()),
            ("owned", self.clone().into_owned().proj()),
            ("record", Record::from(self.clone()).proj()),
            ("os", {
                use std::os::unix::ffi::OsStrExt;
                J::bytes(self.comm_os().as_bytes())
            }),
        ]
    }
    fn owned(&self) -> Vec<(&'static str, Later)> {
        let m = self.clone().into_owned();
        vec![("owned", Box::new(move || m.proj()))]
    }
}
/// Exit and Fork are one type; the name says which record it came from.
pub struct Named<'a, T>(pub &'static str, pub &'a T);
impl<'a> Proj for Named<'a, Exit> {
    fn proj(&self) -> J {
        let r = self.1;
        t(self.0, vec![
            ("pid", w4(r.pid)),
            ("ppid", w4(r.ppid)),
            ("tid", w4(r.tid)),
            ("ptid", w4(r.ptid)),
            ("time", w8(r.time)),
        ])
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(&self.1)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        vec![("clone", Named(self.0, &self.1.clone()).proj())]
    }
}
impl<'a> Proj for Named<'a, Throttle> {
    fn proj(&self) -> J {
        let r = self.1;
        t(self.0, vec![("time", w8(r.time)), ("id", w8(r.id)), ("stream_id", w8(r.stream_id))])
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(&self.1)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        vec![("clone", Named(self.0, &self.1.clone()).proj())]
    }
}
impl Proj for Read {
    fn proj(&self) -> J {
        t("Read", vec![
            ("pid", w4(self.pid)),
            ("tid", w4(self.tid)),
            ("values", self.values.proj()),
        ])
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        vec![("clone", self.clone().proj()), ("record", Record::from(self.clone()).proj())]
    }
}
impl<'a> Proj for Sample<'a> {
    fn proj(&self) -> J {
        let b = |x: Option<&[u8]>| J::opt(x.map(J::bytes));
        t("Sample", vec![
            ("ip", o8(self.ip())),
            ("pid", o4(self.pid())),
            ("tid", o4(self.tid())),
            ("time", o8(self.time())),
            ("addr", o8(self.addr())),
            ("id", o8(self.id())),
            ("stream_id", o8(self.stream_id())),
            ("cpu", o4(self.cpu())),
            ("period", o8(self.period())),
            ("values", J::opt(self.values().map(|v| v.proj()))),
            ("callchain", J::opt(self.callchain().map(|c| J::A(c.iter().map(|&x| w8(x)).collect())))),
            ("raw", b(self.raw())),
            ("lbr_hw_index", o8(self.lbr_hw_index())),
            ("lbr", J::opt(self.lbr().map(|c| J::A(c.iter().map(|x| x.proj()).collect())))),
            ("regs_user", J::opt(self.regs_user().map(|r| r.proj()))),
            ("stack_user", b(self.stack_user())),
            ("weight", o8(self.weight())),
            ("data_src", J::opt(self.data_src().map(|r| r.proj()))),
            ("transaction", J::opt(self.transaction().map(|r| r.proj()))),
            ("regs_intr", J::opt(self.regs_intr().map(|r| r.proj()))),
            ("phys_addr", o8(self.phys_addr())),
            ("aux", b(self.aux())),
            ("cgroup", o8(self.cgroup())),
            ("data_page_size", o8(self.data_page_size())),
            ("code_page_size", o8(self.code_page_size())),
        ])
    }
    fn views(&self, out: &mut Views) {
        if let Some(x) = self.callchain() {
            out.push(("callchain", x.as_ptr() as _, x.len() * 8));
        }
        if let Some(x) = self.raw() {
            out.push(("raw", x.as_ptr(), x.len()));
        }
        if let Some(x) = self.lbr() {
            out.push(("lbr", x.as_ptr() as _, x.len() * 24));
        }
        if let Some(x) = self.regs_user() {
            out.push(("regs_user", x.regs.as_ptr() as _, x.regs.len() * 8));
        }
        if let Some(x) = self.stack_user() {
            out.push(("stack_user", x.as_ptr(), x.len()));
        }
        if let Some(x) = self.regs_intr() {
            out.push(("regs_intr", x.regs.as_ptr() as _, x.regs.len() * 8));
        }
        if let Some(x) = self.aux() {
            out.push(("aux", x.as_ptr(), x.len()));
        }
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        let twice = {
            let a = self.clone();
            let b = a.clone();
            drop(a);
            b.proj()
        };
        vec![
            ("clone", self.clone().proj()),
            ("clone2", twice),
            ("record", Record::from(self.clone()).proj()),
            ("sampleid", SampleId::from(self).proj()),
            ("sampleid", SampleId::from(self.clone()).proj()),
            ("sampleid", SampleId::from_sample(self).proj()),
        ]
    }
}
impl<'a> Proj for Mmap2<'a> {
    fn proj(&self) -> J {
        t("Mmap2", vec![
            ("pid", w4(self.pid)),
            ("tid", w4(self.tid)),
            ("addr", w8(self.addr)),
            ("len", w8(self.len)),
            ("pgoff", w8(self.pgoff)),
            ("prot", w4(self.prot)),
            ("flags", w4(self.flags)),
            ("filename", J::bytes(&self.filename)),
            ("maj", o4(self.maj())),
            ("min", o4(self.min())),
            ("ino", o8(self.ino())),
            ("gen", o8(self.ino_generation())),
            ("build_id", J::opt(self.build_id().map(J::bytes))),
        ])
    }
    fn views(&self, out: &mut Views) {
        out.push(("filename", self.filename.as_ptr(), self.filename.len()));
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        vec![
            ("clone", self.clone().proj()),
            ("owned", self.clone().into_owned().proj()),
            ("record", Record::from(self.clone()).proj()),
            ("mmap", self.to_mmap().proj()),
            ("mmap", self.clone().into_mmap().proj()),
            ("mmap", Mmap::from(self.clone()).proj()),
            ("os", {
                use std::os::unix::ffi::OsStrExt;
                J::bytes(self.filename_os().as_bytes())
            }),
        ]
    }
    fn owned(&self) -> Vec<(&'static str, Later)> {
        let m = self.clone().into_owned();
        let n = self.to_mmap().into_owned();
        vec![("owned", Box::new(move || m.proj())), ("mmap", Box::new(move || n.proj()))]
    }
}
impl Proj for Aux {
    fn proj(&self) -> J {
        t("Aux", vec![
            ("aux_offset", w8(self.aux_offset)),
            ("aux_size", w8(self.aux_size)),
            ("flags", w8(self.flags.bits())),
            ("fmt", J::N(self.flags.pmu_format_type().0 as i64)),
        ])
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        vec![("clone", self.clone().proj()), ("record", Record::from(self.clone()).proj())]
    }
}
impl Proj for ITraceStart {
    fn proj(&self) -> J {
        t("ITraceStart", vec![("pid", w4(self.pid)), ("tid", w4(self.tid))])
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        vec![("clone", self.clone().proj()), ("record", Record::from(self.clone()).proj())]
    }
}
impl Proj for LostSamples {
    fn proj(&self) -> J {
        t("LostSamples", vec![("lost", w8(self.lost))])
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        vec![("clone", self.clone().proj()), ("record", Record::from(self.clone()).proj())]
    }
}
impl Proj for SwitchCpuWide {
    fn proj(&self) -> J {
        let (dir, pid, tid) = match *self {
            SwitchCpuWide::In { pid, tid } => ("In", pid, tid),
            SwitchCpuWide::Out { pid, tid } => ("Out", pid, tid),
        };
        t("SwitchCpuWide", vec![
            ("dir", J::s(dir)),
            ("pid", w4(pid)),
            ("tid", w4(tid)),
            ("apid", w4(self.pid())),
            ("atid", w4(self.tid())),
        ])
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        let c = *self;
        vec![("copy", c.proj()), ("record", Record::from(*self).proj())]
    }
}
impl<'a> Proj for Namespaces<'a> {
    fn proj(&self) -> J {
        let o = |x: Option<&NamespaceEntry>| J::opt(x.map(|e| e.proj()));
        t("Namespaces", vec![
            ("pid", w4(self.pid)),
            ("tid", w4(self.tid)),
            ("ns", J::A(self.namespaces.iter().map(|e| e.proj()).collect())),
            ("network", o(self.network())),
            ("uts", o(self.uts())),
            ("ipc", o(self.ipc())),
            ("pidns", o(self.pid())),
            ("user", o(self.user())),
            ("cgroup", o(self.cgroup())),
        ])
    }
    fn views(&self, out: &mut Views) {
        out.push(("ns", self.namespaces.as_ptr() as _, self.namespaces.len() * 16));
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        vec![("clone", self.clone().proj()), ("record", Record::from(self.clone()).proj())]
    }
}
impl<'a> Proj for KSymbol<'a> {
    fn proj(&self) -> J {
        t("KSymbol", vec![
            ("addr", w8(self.addr)),
            ("len", w4(self.len)),
            ("ksym_type", w2(self.ksym_type.0)),
            ("flags", w2(self.flags.bits())),
            ("name", J::bytes(&self.name)),
        ])
    }
    fn views(&self, out: &mut Views) {
        out.push(("name", self.name.as_ptr(), self.name.len()));
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        vec![
            ("clone", self.clone().proj()),
            ("owned", self.clone().into_owned().proj()),
            ("record", Record::from(self.clone()).proj()),
        ]
    }
    fn owned(&self) -> Vec<(&'static str, Later)> {
        let m = self.clone().into_owned();
        vec![("owned", Box::new(move || m.proj()))]
    }
}
impl Proj for BpfEvent {
    fn proj(&self) -> J {
        t("BpfEvent", vec![
            ("ty", w2(self.ty.0)),
            ("flags", w2(self.flags)),
            ("id", w4(self.id)),
            ("tag", J::bytes(&self.tag)),
        ])
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        let c = *self;
        vec![("copy", c.proj()), ("record", Record::from(*self).proj())]
    }
}
impl<'a> Proj for CGroup<'a> {
    fn proj(&self) -> J {
        t("CGroup", vec![("id", w8(self.id)), ("path", J::bytes(&self.path))])
    }
    fn views(&self, out: &mut Views) {
        out.push(("path", self.path.as_ptr(), self.path.len()));
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        vec![
            ("clone", self.clone().proj()),
            ("owned", self.clone().into_owned().proj()),
            ("record", Record::from(self.clone()).proj()),
            ("os", {
                use std::os::unix::ffi::OsStrExt;
                J::bytes(self.path_os().as_os_str().as_bytes())
            }),
        ]
    }
    fn owned(&self) -> Vec<(&'static str, Later)> {
        let m = self.clone().into_owned();
        vec![("owned", Box::new(move || m.proj()))]
    }
}
impl<'a> Proj for TextPoke<'a> {
    fn proj(&self) -> J {
        t("TextPoke", vec![
            ("addr", w8(self.addr)),
            ("old", J::bytes(&self.old_bytes)),
            ("new", J::bytes(&self.new_bytes)),
        ])
    }
    fn views(&self, out: &mut Views) {
        out.push(("old", self.old_bytes.as_ptr(), self.old_bytes.len()));
        out.push(("new", self.new_bytes.as_ptr(), self.new_bytes.len()));
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        vec![
            ("clone", Clone::clone(self).proj()),
            ("owned", TextPoke::to_owned(Clone::clone(self)).proj()),
            ("record", Record::from(Clone::clone(self)).proj()),
        ]
    }
    fn owned(&self) -> Vec<(&'static str, Later)> {
        let m = TextPoke::to_owned(Clone::clone(self));
        vec![("owned", Box::new(move || m.proj()))]
    }
}
impl Proj for AuxOutputHwId {
    fn proj(&self) -> J {
        t("AuxOutputHwId", vec![("hw_id", w8(self.hw_id))])
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        vec![("clone", self.clone().proj()), ("record", Record::from(self.clone()).proj())]
    }
}

/// Apply `$body` to the payload of a record.
macro_rules! on_record {
    ($r:expr, $x:ident => $body:expr, switch => $sw:expr, unknown($ty:ident, $data:ident) => $un:expr) => {
        match $r {
            Record::Mmap($x) => $body,
            Record::Lost($x) => $body,
            Record::Comm($x) => $body,
            Record::Exit(x) => { let $x = &Named("Exit", x); $body }
            Record::Throttle(x) => { let $x = &Named("Throttle", x); $body }
            Record::Unthrottle(x) => { let $x = &Named("Unthrottle", x); $body }
            Record::Fork(x) => { let $x = &Named("Fork", x); $body }
            Record::Read($x) => $body,
            Record::Sample(x) => { let $x = &**x; $body }
            Record::Mmap2($x) => $body,
            Record::Aux($x) => $body,
            Record::ITraceStart($x) => $body,
            Record::LostSamples($x) => $body,
            Record::Switch => $sw,
            Record::SwitchCpuWide($x) => $body,
            Record::Namespaces($x) => $body,
            Record::KSymbol($x) => $body,
            Record::BpfEvent($x) => $body,
            Record::CGroup($x) => $body,
            Record::TextPoke($x) => $body,
            Record::AuxOutputHwId($x) => $body,
            Record::Unknown { ty: $ty, data: $data } => $un,
            _ => panic!("record variant unknown to the harness"),
        }
    };
}

impl<'a> Proj for Record<'a> {
    fn proj(&self) -> J {
        on_record!(self, x => x.proj(),
            switch => t("Switch", vec![]),
            unknown(ty, data) => t("Unknown", vec![("ty", w4(*ty)), ("data", J::bytes(data))]))
    }
    fn views(&self, out: &mut Views) {
        on_record!(self, x => x.views(out), switch => (),
            unknown(_ty, data) => out.push(("data", data.as_ptr(), data.len())))
    }
    fn dbg(&self) -> Option<(String, String)> {
        both(self)
    }
    fn copies(&self) -> Vec<(&'static str, J)> {
        let mut v = on_record!(self, x => x.copies(), switch => vec![], unknown(_t, _d) => vec![]);
        v.push(("clone", self.clone().proj()));
        v
    }
    fn owned(&self) -> Vec<(&'static str, Later)> {
        let mut v =
            on_record!(self, x => x.owned(), switch => vec![], unknown(_t, _d) => vec![]);
        if let Record::Sample(s) = self {
            if let Some(g) = s.values() {
                let g = g.clone().into_owned();
                v.push(("values", Box::new(move || g.proj())));
            }
        }
        v
    }
}
