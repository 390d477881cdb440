//! Visitors that record which handler was called and with what.
use perf_event_data::endian::Endian;
use perf_event_data::parse::{ParseBuf, ParseResult, Parser};
use perf_event_data::*;
use perf_event_open_sys::bindings::perf_event_header;
use std::borrow::Cow;

use crate::json::J;
use crate::proj::{Proj, Views};

pub struct Visited {
    handler: &'static str,
    meta: RecordMetadata,
    rec: Option<Record<'static>>,
}
impl Proj for Visited {
    fn proj(&self) -> J {
        J::obj(vec![
            ("h", J::s(self.handler)),
            ("meta", self.meta.proj()),
            ("rec", J::opt(self.rec.as_ref().map(|r| r.proj()))),
        ])
    }
    fn views(&self, out: &mut Views) {
        if let Some(r) = &self.rec {
            r.views(out)
        }
    }
}

macro_rules! handlers {
    ($m:ident $(, $extra:tt)*) => {
        $m! { $($extra)*
            Mmap visit_mmap Mmap<'static> [Record::Mmap]
            Lost visit_lost Lost [Record::Lost]
            Comm visit_comm Comm<'static> [Record::Comm]
            Exit visit_exit Exit [Record::Exit]
            Throttle visit_throttle Throttle [Record::Throttle]
            Unthrottle visit_unthrottle Throttle [Record::Unthrottle]
            Fork visit_fork Fork [Record::Fork]
            Read visit_read Read [Record::Read]
            Sample visit_sample Sample<'static> [|s| Record::Sample(Box::new(s))]
            Mmap2 visit_mmap2 Mmap2<'static> [Record::Mmap2]
            Aux visit_aux Aux [Record::Aux]
            ITraceStart visit_itrace_start ITraceStart [Record::ITraceStart]
            LostSamples visit_lost_samples LostSamples [Record::LostSamples]
            SwitchCpuWide visit_switch_cpu_wide SwitchCpuWide [Record::SwitchCpuWide]
            Namespaces visit_namespaces Namespaces<'static> [Record::Namespaces]
            KSymbol visit_ksymbol KSymbol<'static> [Record::KSymbol]
            BpfEvent visit_bpf_event BpfEvent [Record::BpfEvent]
            CGroup visit_cgroup CGroup<'static> [Record::CGroup]
            TextPoke visit_text_poke TextPoke<'static> [Record::TextPoke]
            AuxOutputHwId visit_aux_output_hw_id AuxOutputHwId [Record::AuxOutputHwId]
        }
    };
}

fn unimplemented(meta: RecordMetadata) -> Visited {
    crate::noise::now();
    Visited { handler: "unimplemented", meta, rec: None }
}
fn switch(meta: RecordMetadata) -> Visited {
    crate::noise::now();
    Visited { handler: "Switch", meta, rec: Some(Record::Switch) }
}
fn unknown(data: Cow<'static, [u8]>, meta: RecordMetadata) -> Visited {
    crate::noise::now();
    let ty = meta.ty();
    Visited { handler: "Unknown", meta, rec: Some(Record::Unknown { ty, data }) }
}

struct All;
macro_rules! all {
    ($($n:ident $f:ident $t:ty [$w:expr])*) => {
        impl Visitor<'static> for All {
            type Output = Visited;
            fn visit_unimplemented(self, meta: RecordMetadata) -> Visited { unimplemented(meta) }
            fn visit_switch(self, meta: RecordMetadata) -> Visited { switch(meta) }
            fn visit_unknown(self, d: Cow<'static, [u8]>, meta: RecordMetadata) -> Visited {
                unknown(d, meta)
            }
            $(fn $f(self, r: $t, meta: RecordMetadata) -> Visited {
                crate::noise::now();
                Visited { handler: stringify!($n), meta, rec: Some(($w)(r)) }
            })*
        }
    };
}
handlers!(all);

struct Nothing;
impl Visitor<'static> for Nothing {
    type Output = Visited;
    fn visit_unimplemented(self, meta: RecordMetadata) -> Visited {
        unimplemented(meta)
    }
}

mod only {
    use super::*;
    macro_rules! only {
        ($($n:ident $f:ident $t:ty [$w:expr])*) => {
            $(
                pub struct $n;
                impl Visitor<'static> for $n {
                    type Output = Visited;
                    fn visit_unimplemented(self, meta: RecordMetadata) -> Visited {
                        unimplemented(meta)
                    }
                    fn $f(self, r: super::ty::$n, meta: RecordMetadata) -> Visited {
                        Visited { handler: stringify!($n), meta, rec: Some(($w)(r)) }
                    }
                }
            )*
        };
    }
    handlers!(only);
    pub struct Switch;
    impl Visitor<'static> for Switch {
        type Output = Visited;
        fn visit_unimplemented(self, meta: RecordMetadata) -> Visited {
            unimplemented(meta)
        }
        fn visit_switch(self, meta: RecordMetadata) -> Visited {
            switch(meta)
        }
    }
    pub struct Unknown;
    impl Visitor<'static> for Unknown {
        type Output = Visited;
        fn visit_unimplemented(self, meta: RecordMetadata) -> Visited {
            unimplemented(meta)
        }
        fn visit_unknown(self, d: Cow<'static, [u8]>, meta: RecordMetadata) -> Visited {
            unknown(d, meta)
        }
    }
}
/// The record types under the names of their handlers.
mod ty {
    mod real {
        pub use perf_event_data::*;
    }
    // Aliases shadow the glob import of the same name.
    pub type Mmap = real::Mmap<'static>;
    pub type Lost = real::Lost;
    pub type Comm = real::Comm<'static>;
    pub type Exit = real::Exit;
    pub type Throttle = real::Throttle;
    pub type Unthrottle = real::Throttle;
    pub type Fork = real::Fork;
    pub type Read = real::Read;
    pub type Sample = real::Sample<'static>;
    pub type Mmap2 = real::Mmap2<'static>;
    pub type Aux = real::Aux;
    pub type ITraceStart = real::ITraceStart;
    pub type LostSamples = real::LostSamples;
    pub type SwitchCpuWide = real::SwitchCpuWide;
    pub type Namespaces = real::Namespaces<'static>;
    pub type KSymbol = real::KSymbol<'static>;
    pub type BpfEvent = real::BpfEvent;
    pub type CGroup = real::CGroup<'static>;
    pub type TextPoke = real::TextPoke<'static>;
    pub type AuxOutputHwId = real::AuxOutputHwId;
}

pub fn visit<B, E>(
    p: &mut Parser<B, E>,
    which: &str,
    hdr: Option<perf_event_header>,
) -> ParseResult<Visited>
where
    B: ParseBuf<'static>,
    E: Endian,
{
    macro_rules! go {
        ($v:expr) => {
            match hdr {
                None => p.parse_record($v),
                Some(h) => p.parse_record_with_header($v, h),
            }
        };
    }
    macro_rules! pick {
        ($($n:ident $f:ident $t:ty [$w:expr])*) => {
            match which {
                "all" => go!(All),
                "none" => go!(Nothing),
                "Switch" => go!(only::Switch),
                "Unknown" => go!(only::Unknown),
                $(stringify!($n) => go!(only::$n),)*
                w => panic!("visitor {w} not known to the harness"),
            }
        };
    }
    handlers!(pick)
}
