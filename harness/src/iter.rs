//! Every way to look at a counter group.
use perf_event_data::{ReadGroup, ReadValue};

use crate::json::J;
use crate::proj::*;

pub struct Probe {
    group: ReadGroup<'static>,
    script: J,
}
impl Probe {
    pub fn new(group: ReadGroup<'static>, script: &J) -> Probe {
        Probe { group, script: script.clone() }
    }
}
fn n(x: usize) -> J {
    J::N(x.min(1 << 30) as i64)
}
impl Proj for Probe {
    /// {g: the group, r: results of the script's steps}
    fn proj(&self) -> J {
        let g = &self.group;
        let mut it = g.entries();
        let mut out = vec![];
        for step in self.script.arr() {
            let s = step.arr();
            let k = || s[1].word() as usize;
            let o = |e: Option<perf_event_data::GroupEntry>| J::opt(e.map(|e| e.proj()));
            out.push(match s[0].str() {
                "next" => o(it.next()),
                "back" => o(it.next_back()),
                "nth" => o(it.nth(k())),
                "nthback" => o(it.nth_back(k())),
                "len" => n(it.len()),
                "hint" => {
                    let (a, b) = it.size_hint();
                    J::A(vec![n(a), J::opt(b.map(n))])
                }
                "fork" => J::A(it.clone().map(|e| e.proj()).collect()),
                "rev" => J::A(it.clone().rev().map(|e| e.proj()).collect()),
                "fold" => J::A(it.clone().fold(vec![], |mut v, e| {
                    v.push(e.proj());
                    v
                })),
                "rfold" => J::A(it.clone().rfold(vec![], |mut v, e| {
                    v.push(e.proj());
                    v
                })),
                "skip" => J::A(it.clone().skip(k()).map(|e| e.proj()).collect()),
                "every" => J::A(it.clone().step_by(k().max(1)).map(|e| e.proj()).collect()),
                "take" => J::A(it.by_ref().take(k()).map(|e| e.proj()).collect()),
                "takeback" => J::A(it.by_ref().rev().take(k()).map(|e| e.proj()).collect()),
                "find" => o(it.find(|e| e.value() == s[1].word())),
                "rfind" => o(it.rfind(|e| e.value() == s[1].word())),
                "last" => o(it.clone().last()),
                "count" => n(it.clone().count()),
                "restart" => {
                    it = g.entries();
                    J::none()
                }
                "get" => o(g.get(k())),
                "byid" => o(g.get_by_id(s[1].word())),
                "glen" => n(g.len()),
                "empty" => J::B(g.is_empty()),
                "single" => J::opt(ReadValue::try_from(g.clone()).ok().map(|v| v.proj())),
                "entry" => {
                    J::opt(g.get(k()).map(|e| ReadValue::from_group_and_entry(g, &e).proj()))
                }
                "again" => {
                    J::opt(g.get(k()).map(|e| {
                        ReadGroup::from(ReadValue::from_group_and_entry(g, &e)).proj()
                    }))
                }
                "owned" => g.clone().into_owned().proj(),
                x => panic!("step {x}"),
            });
        }
        J::obj(vec![("g", g.proj()), ("r", J::A(out))])
    }
    fn dbg(&self) -> Option<(String, String)> {
        self.group.dbg()
    }
}
