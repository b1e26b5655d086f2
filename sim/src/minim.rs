//! Makes a failing plan small: fewer callers, operations, switches and faults,
//! and smaller numbers, as long as the same class of violation stays.

use crate::judge::Violation;
use crate::plan::{Kind, Plan, Schedule, Spec};
use crate::worker::Examiner;
use simcore::{CbFault, Refuse};
use std::time::Instant;

pub struct Small {
    pub plan: Plan,
    pub violation: Violation,
    pub tries: u32,
}

struct Min<'a> {
    x: &'a mut Examiner,
    class: String,
    best: Plan,
    violation: Violation,
    tries: u32,
    end: Instant,
}

impl Min<'_> {
    fn over(&self) -> bool {
        self.tries > 1500 || Instant::now() > self.end
    }

    fn attempt(&mut self, q: Plan) -> bool {
        if self.over() {
            return false;
        }
        self.tries += 1;
        match self.x.examine(&q) {
            (_, Some(v)) if v.class == self.class => {
                self.best = q;
                self.violation = v;
                true
            }
            _ => false,
        }
    }

    /// Removes chunks of what `n` counts with `cut(plan, from, to)`.
    fn chunks(&mut self, n: fn(&Plan) -> usize, cut: fn(&mut Plan, usize, usize)) -> bool {
        let mut any = false;
        let mut size = n(&self.best).div_ceil(2);
        while size > 0 {
            let mut at = 0;
            while at < n(&self.best) {
                let mut q = self.best.clone();
                cut(&mut q, at, (at + size).min(n(&self.best)));
                if self.attempt(q) {
                    any = true;
                } else {
                    at += size;
                }
                if self.over() {
                    return any;
                }
            }
            size /= 2;
        }
        any
    }

    fn each_op(&mut self, edit: &dyn Fn(&mut crate::plan::Op) -> bool) -> bool {
        let mut any = false;
        for t in 0..self.best.tasks.len() {
            for i in 0..self.best.tasks[t].len() {
                let mut q = self.best.clone();
                if edit(&mut q.tasks[t][i]) && self.attempt(q) {
                    any = true;
                }
            }
        }
        any
    }

    fn values(&mut self) -> bool {
        let mut any = false;
        let cuts: [fn(u128) -> u128; 6] = [
            |_| 0,
            |v| v / 10,
            |v| v / 2,
            |v| v - v % 1_000_000,
            |v| v - v % 10,
            |v| v.saturating_sub(1),
        ];
        for cut in cuts {
            loop {
                let did = self.each_op(&|o| {
                    if let Kind::Fmt { call, .. } = &mut o.kind {
                        let n = cut(call.v);
                        let new = n != call.v;
                        call.v = n;
                        return new;
                    }
                    false
                });
                any |= did;
                if !did || self.over() {
                    break;
                }
            }
        }
        any
    }

    fn texts(&mut self) -> bool {
        let mut any = false;
        let cuts: [fn(u32) -> u32; 3] = [|_| 0, |v| v / 2, |v| v.saturating_sub(1)];
        for cut in cuts {
            for _ in 0..20 {
                let did = self.each_op(&|o| match &mut o.kind {
                    Kind::FromStr { text, .. }
                    | Kind::FromString { text, .. }
                    | Kind::PushStr { text, .. }
                    | Kind::CompareText { text, .. } => {
                        let n = cut(text.len);
                        let new = n != text.len;
                        text.len = n;
                        new
                    }
                    _ => false,
                });
                any |= did;
                if !did || self.over() {
                    break;
                }
            }
        }
        any
    }
}

fn ops(p: &Plan) -> usize {
    p.n_ops()
}

fn cut_ops(p: &mut Plan, from: usize, to: usize) {
    let mut n = 0;
    for t in &mut p.tasks {
        t.retain(|_| {
            n += 1;
            !(from..to).contains(&(n - 1))
        });
    }
}

fn switches(p: &Plan) -> usize {
    match &p.schedule {
        Schedule::Explicit(x) => x.len(),
        Schedule::Random { .. } => 0,
    }
}

fn cut_switches(p: &mut Plan, from: usize, to: usize) {
    if let Schedule::Explicit(x) = &mut p.schedule {
        x.drain(from..to);
    }
}

/// Drops callers without operations and systems nobody uses.
fn tidy(p: &Plan) -> Plan {
    let mut q = p.clone();
    for t in (0..q.tasks.len()).rev() {
        if q.tasks[t].is_empty() && q.tasks.len() > 1 {
            q.tasks.remove(t);
            let t = t as u32;
            if let Schedule::Explicit(x) = &mut q.schedule {
                x.retain(|w| w.task != t && w.to != t);
                for w in x.iter_mut() {
                    if w.task != simcore::OP_END && w.task > t {
                        w.task -= 1;
                    }
                    if w.to > t {
                        w.to -= 1;
                    }
                }
            }
        }
    }
    for s in (0..q.sys.len()).rev() {
        let used = q.tasks.iter().flatten().any(|o| {
            o.call().is_some_and(|c| c.sys == s) || o.nested.is_some_and(|c| c.sys == s)
        });
        if !used {
            q.sys.remove(s);
            for o in q.tasks.iter_mut().flatten() {
                if let Kind::Fmt { call, .. } = &mut o.kind {
                    call.sys -= usize::from(call.sys > s);
                }
                if let Some(c) = &mut o.nested {
                    c.sys -= usize::from(c.sys > s);
                }
            }
        }
    }
    q
}

/// `plan` reproduces `violation` deterministically.
pub fn minimise(x: &mut Examiner, plan: &Plan, violation: Violation, secs: u64) -> Small {
    let mut m = Min {
        x,
        class: violation.class.clone(),
        best: plan.clone(),
        violation,
        tries: 0,
        end: Instant::now() + std::time::Duration::from_secs(secs),
    };
    // The decisions of the scheduler as data.
    if let Schedule::Random { .. } = plan.schedule {
        let (run, _) = m.x.examine(plan);
        let mut q = plan.clone();
        q.schedule = Schedule::Explicit(run.switches);
        m.attempt(q);
    }
    for _ in 0..6 {
        let mut any = false;
        // Whole callers.
        for t in 0..m.best.tasks.len() {
            if !m.best.tasks[t].is_empty() {
                let mut q = m.best.clone();
                q.tasks[t].clear();
                any |= m.attempt(q);
            }
        }
        any |= m.chunks(ops, cut_ops);
        let q = tidy(&m.best);
        if q.text() != m.best.text() {
            any |= m.attempt(q);
        }
        any |= m.chunks(switches, cut_switches);
        any |= m.each_op(&|o| {
            let was = o.rep;
            o.rep = 1;
            was != 1
        });
        for _ in 0..12 {
            if !m.each_op(&|o| {
                let was = o.rep;
                o.rep = was.div_ceil(2);
                was != o.rep
            }) {
                break;
            }
        }
        any |= m.each_op(&|o| {
            let was = o.refuse;
            o.refuse = Refuse::None;
            was != Refuse::None
        });
        any |= m.each_op(&|o| {
            let was = o.fault;
            o.fault = CbFault::None;
            o.nested = None;
            o.grow = None;
            was != CbFault::None
        });
        any |= m.each_op(&|o| match &mut o.kind {
            Kind::Fmt { call, slot } => {
                let new = call.wrap != sut::Wrap::Direct || slot.is_some();
                call.wrap = sut::Wrap::Direct;
                *slot = None;
                new
            }
            _ => false,
        });
        any |= m.values();
        any |= m.texts();
        // Smaller collections.
        for s in 0..m.best.sys.len() {
            if let Spec::Dig(d) = &m.best.sys[s] {
                for (len, len2) in [(d.len / 2, d.len2), (d.len, 0), (d.len, d.len2 / 2), (d.len.saturating_sub(1), d.len2)] {
                    let mut q = m.best.clone();
                    if let Spec::Dig(d) = &mut q.sys[s] {
                        if (d.len, d.len2) == (len, len2) {
                            continue;
                        }
                        d.len = len;
                        d.len2 = len2;
                    }
                    any |= m.attempt(q);
                }
            }
        }
        if !any || m.over() {
            break;
        }
    }
    Small { plan: m.best, violation: m.violation, tries: m.tries }
}
