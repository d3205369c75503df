//! P13, P14, P15: totalizer structures that share one node database.
//!
//! A run builds a directed graph of totalizer nodes in one database, through every constructor the
//! database offers, and interleaves requests for single outputs, requests through the encodings that
//! borrow the database, variable reservation, resets, new collectors and draining of nodes. Every
//! node is modelled by its value on all assignments of the inputs.
use crate::enc::{Col, Rel};
use crate::util::lit;
use rustsat::encodings::nodedb::{NodeById, NodeCon, NodeId, NodeLike};
use rustsat::encodings::totdb::{Db, Node, Semantics};
use rustsat::encodings::{card, pb, EnforceError};
use rustsat::instances::{BasicVarManager, ManageVars};
use rustsat::types::{Assignment, Lit, Var};
use rustsat::OutOfMemory;
use simcore::{ensure, Outcome, Sim};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Leaf,
    Unit,
    General,
    Dummy,
}

#[derive(Clone, Debug)]
struct N {
    kind: Kind,
    /// value on every assignment
    val: Vec<usize>,
    /// output values the node distinguishes
    vals: BTreeSet<usize>,
    max: usize,
    /// largest weight of an input under this node
    maxw: usize,
    kids: Option<(NodeId, NodeId)>,
    reserved: bool,
}

/// A connection as the model understands it
#[derive(Clone, Copy, Debug)]
struct C {
    id: usize,
    off: usize,
    mult: usize,
    lim: Option<usize>,
}

impl C {
    fn map(&self, v: usize) -> usize {
        let v = v.saturating_sub(self.off);
        v.min(self.lim.unwrap_or(usize::MAX)) * self.mult
    }
    fn con(&self, sim: &mut Sim) -> NodeCon {
        let id = NodeId(self.id);
        match self.lim {
            Some(1) if sim.coin() => NodeCon::single(id, self.off + 1, self.mult),
            Some(l) => NodeCon::limited(id, self.off, l, self.mult),
            None if self.off > 0 => NodeCon::offset_weighted(id, self.off, self.mult),
            None if self.mult > 1 || sim.chance(1, 4) => NodeCon::weighted(id, self.mult),
            None => NodeCon::full(id),
        }
    }
}

fn kind(n: &Node) -> Kind {
    match n {
        Node::Leaf(_) => Kind::Leaf,
        Node::Unit(_) => Kind::Unit,
        Node::General(_) => Kind::General,
        Node::Dummy => Kind::Dummy,
    }
}

struct St {
    nv: usize,
    na: usize,
    db: Db,
    n: Vec<N>,
    leaves: HashMap<i32, usize>,
    vm: BasicVarManager,
    first_aux: i32,
    col: Col,
    oom: bool,
    /// (node, value) -> literal, provided by clauses in the current collector in this direction
    ifs: BTreeMap<(usize, usize), i32>,
    onlyifs: BTreeMap<(usize, usize), i32>,
    /// outputs the database must report as encoded
    known_if: BTreeSet<(usize, usize)>,
    known_only: BTreeSet<(usize, usize)>,
    stale_if: bool,
    stale_only: bool,
    hist: Vec<String>,
}

fn truth(l: i32, a: usize) -> bool {
    (a >> (l.abs() - 1) & 1 == 1) == (l > 0)
}

fn assign(nv: usize, a: usize) -> Vec<i32> {
    (1..=nv as i32).map(|v| if a >> (v - 1) & 1 == 1 { v } else { -v }).collect()
}

impl St {
    fn log(&mut self, sim: &mut Sim, s: String) {
        sim.ev(&s);
        self.hist.push(s);
    }

    /// models the nodes the database has that the model does not know yet
    fn sync(&mut self) -> Outcome {
        for i in self.n.len()..self.db.len() {
            let node = &self.db[NodeId(i)];
            let k = kind(node);
            let new = match k {
                Kind::Leaf => {
                    let l = node[1].to_ipasir();
                    self.leaves.insert(l, i);
                    N { kind: k, val: (0..self.na).map(|a| usize::from(truth(l, a))).collect(), vals: [1].into(), max: 1, maxw: 1, kids: None, reserved: false }
                }
                Kind::Dummy => N { kind: k, val: vec![0; self.na], vals: BTreeSet::new(), max: 0, maxw: 0, kids: None, reserved: false },
                _ => {
                    let (l, r) = (node.left().unwrap(), node.right().unwrap());
                    ensure!(l.id.0 < i && r.id.0 < i, "shared:order", "node {i} refers to {l:?} and {r:?} after {:?}", self.hist);
                    let (ln, rn) = (&self.n[l.id.0], &self.n[r.id.0]);
                    let val: Vec<usize> = (0..self.na).map(|a| l.map(ln.val[a]) + r.map(rn.val[a])).collect();
                    let lv: BTreeSet<usize> = ln.vals.iter().map(|v| l.map(*v)).chain([0]).collect();
                    let rv: BTreeSet<usize> = rn.vals.iter().map(|v| r.map(*v)).chain([0]).collect();
                    let mut vals: BTreeSet<usize> = lv.iter().flat_map(|a| rv.iter().map(move |b| a + b)).collect();
                    vals.remove(&0);
                    let max = vals.last().copied().unwrap_or(0);
                    N { kind: k, val, vals, max, maxw: (ln.maxw * l.multiplier()).max(rn.maxw * r.multiplier()), kids: Some((l.id, r.id)), reserved: false }
                }
            };
            let node = &self.db[NodeId(i)];
            let got: BTreeSet<usize> = node.vals(..).collect();
            ensure!(got == new.vals, "shared:vals", "node {i} distinguishes {got:?}, its children allow {:?}, after {:?}", new.vals, self.hist);
            ensure!(node.max_val() == new.max && node.len() == new.vals.len(), "shared:len", "node {i} claims {} outputs up to {}, its values are {:?}, after {:?}", node.len(), node.max_val(), new.vals, self.hist);
            self.n.push(new);
        }
        Ok(())
    }

    fn pick(&self, sim: &mut Sim, want: &dyn Fn(&N) -> bool) -> Option<usize> {
        let c: Vec<usize> = (0..self.n.len()).filter(|i| self.n[*i].kind != Kind::Dummy && want(&self.n[*i])).collect();
        if c.is_empty() {
            return None;
        }
        // later nodes are bigger
        if sim.chance(1, 3) {
            return c.iter().copied().max();
        }
        Some(*sim.pick(&c))
    }

    fn gen_con(&self, sim: &mut Sim, wmax: usize, limits: bool) -> Option<C> {
        let id = self.pick(sim, &|n| n.vals.len() <= 12)?;
        let n = &self.n[id];
        let mult = if sim.coin() { 1 } else { sim.range(1, wmax) };
        let (mut off, mut lim) = (0, None);
        if n.kind != Kind::General && sim.chance(1, 4) {
            off = sim.range(0, n.max - 1);
            if sim.coin() {
                lim = Some(1);
            }
            if limits && sim.coin() {
                lim = Some(sim.range(1, n.max - off));
            }
        }
        Some(C { id, off, mult, lim })
    }

    fn fresh_vars(&self, before: usize) -> Outcome {
        let used = self.vm.n_used() as i32;
        for l in self.col.cls[before..].iter().flatten() {
            let v = l.abs();
            ensure!(v <= self.nv as i32 || (v > self.first_aux && v <= used), "shared:vars", "a clause uses variable {v}, which is neither an input nor handed out for this, after {:?}", self.hist);
        }
        Ok(())
    }

    /// the clauses alone exclude no assignment of the inputs
    fn alone(&mut self, sim: &mut Sim) -> Outcome {
        for _ in 0..4 {
            let a = sim.idx(self.na);
            let q = assign(self.nv, a);
            let ok = self.col.sat.solve(&q).is_some();
            ensure!(ok, if self.oom { "shared:oom:excludes" } else { "shared:excludes" }, "the clauses alone exclude {q:?} after {:?}", self.hist);
        }
        Ok(())
    }

    fn check_if(&mut self, sim: &mut Sim, id: usize, v: usize, l: i32) -> Outcome {
        let general = self.n[id].kind == Kind::General;
        for a in self.some(sim) {
            let x = self.n[id].val[a];
            let mut q = assign(self.nv, a);
            q.push(-l);
            let sat = self.col.sat.solve(&q).is_some();
            // an output of a weighted node is only forced by the exact value
            if x == v || (x > v && !general) {
                ensure!(!sat, "shared:if:unforced", "output {v} of node {id} ({l}) may be false although the inputs {:?} have value {x}, after {:?}", assign(self.nv, a), self.hist);
            } else if x < v {
                ensure!(sat, "shared:if:overforced", "output {v} of node {id} ({l}) must be true although the inputs {:?} have value {x}, after {:?}", assign(self.nv, a), self.hist);
            }
        }
        Ok(())
    }

    fn check_only(&mut self, sim: &mut Sim, id: usize, v: usize, l: i32) -> Outcome {
        for a in self.some(sim) {
            let x = self.n[id].val[a];
            let mut q = assign(self.nv, a);
            q.push(l);
            let sat = self.col.sat.solve(&q).is_some();
            ensure!(sat == (x >= v), "shared:onlyif", "output {v} of node {id} ({l}) {} be true on inputs {:?} of value {x}, after {:?}", if sat { "can" } else { "cannot" }, assign(self.nv, a), self.hist);
        }
        Ok(())
    }

    fn some(&self, sim: &mut Sim) -> Vec<usize> {
        if self.na <= 8 {
            (0..self.na).collect()
        } else {
            (0..8).map(|_| sim.idx(self.na)).collect()
        }
    }

    fn forget(&mut self, dir: Semantics) {
        if dir.has_if() {
            self.known_if.clear();
            self.stale_if = false;
        }
        if dir.has_only_if() {
            self.known_only.clear();
            self.stale_only = false;
        }
    }

    fn unstale(&mut self, sim: &mut Sim, dir: Semantics) {
        if (self.stale_if && dir.has_if()) || (self.stale_only && dir.has_only_if()) {
            self.log(sim, format!("reset {dir:?} (new collector)"));
            self.db.reset_encoded(dir);
            self.forget(dir);
        }
    }

    fn new_col(&mut self) {
        self.col = Col::default();
        self.ifs.clear();
        self.onlyifs.clear();
    }

    fn budget(&mut self, sim: &mut Sim) {
        self.col.budget = if self.oom && sim.chance(2, 3) { Some(sim.range(0, 12)) } else { None };
    }

    /// success exactly if nothing was refused
    fn outcome<T>(&mut self, sim: &mut Sim, refused: u64, r: Result<T, OutOfMemory>) -> Result<Option<T>, simcore::Violation> {
        self.col.budget = None;
        let failed = self.col.refused > refused;
        match r {
            Ok(x) => {
                if failed {
                    simcore::bail!("shared:oom:swallowed", "the collector refused a clause, but success was reported, after {:?}", self.hist);
                }
                Ok(Some(x))
            }
            Err(e) => {
                if !failed {
                    simcore::bail!("shared:error", "{e} reported without the collector failing, after {:?}", self.hist);
                }
                sim.fault("collector refuses a clause");
                sim.nontrivial = true;
                self.log(sim, "collector failed".into());
                self.alone(sim)?;
                Ok(None)
            }
        }
    }
}

fn sem(sim: &mut Sim) -> Semantics {
    *sim.pick(&[Semantics::If, Semantics::OnlyIf, Semantics::IfAndOnlyIf])
}

fn drive(sim: &mut Sim, weighted: bool, oom: bool) -> Outcome {
    sim.panic_ctx = "shared database".into();
    let nv = sim.range(1, 5);
    let wmax = if weighted { *sim.pick(&[2usize, 3, 5]) } else { 1 };
    let mut vm = BasicVarManager::default();
    let first_aux = nv as i32 + sim.range(0, 2) as i32;
    vm.increase_next_free(Var::new(first_aux as u32));
    let mut s = St {
        nv,
        na: 1 << nv,
        db: Db::default(),
        n: vec![],
        leaves: HashMap::new(),
        vm,
        first_aux,
        col: Col::default(),
        oom,
        ifs: BTreeMap::new(),
        onlyifs: BTreeMap::new(),
        known_if: BTreeSet::new(),
        known_only: BTreeSet::new(),
        stale_if: false,
        stale_only: false,
        hist: vec![],
    };
    let steps = sim.range(3, 16);
    let mut shape = 0u64;
    for step in 0..steps {
        crate::persist::maybe(sim, &mut s.db, "node database")?;
        crate::persist::maybe(sim, &mut s.vm, "variable manager")?;
        let build = step < 3 || s.n.is_empty();
        let act = if build { sim.weighted(&[2, 2, 2, 2, 2]) } else { sim.weighted(&[1, 3, 1, 1, 2, 8, 4, if weighted { 5 } else { 0 }, 2, 1, 2, 2, 1]) };
        shape = simcore::sim::mix(shape, act as u64);
        let (before, used, refused) = (s.col.cls.len(), s.vm.n_used(), s.col.refused);
        if s.n.len() > 24 && act < 5 {
            continue;
        }
        match act {
            // a leaf
            0 => {
                let l = sim.range(1, nv) as i32 * if sim.coin() { 1 } else { -1 };
                s.log(sim, format!("leaf {l}"));
                let id = s.db.insert(Node::leaf(lit(l))).0;
                let want = s.leaves.get(&l).copied().unwrap_or(s.n.len());
                ensure!(id == want, "shared:leaf", "literal {l} was inserted as {id} instead of {want}, after {:?}", s.hist);
                s.sync()?;
            }
            // an internal node
            1 => {
                let (Some(mut a), Some(mut b)) = (s.gen_con(sim, wmax, true), s.gen_con(sim, wmax, true)) else { continue };
                let g = |c: &C| s.n[c.id].kind == Kind::General;
                if a.mult == b.mult && !g(&a) && !g(&b) {
                    a.mult = 1;
                    b.mult = 1;
                } else {
                    for c in [&mut a, &mut b] {
                        if c.lim.is_some() {
                            c.lim = Some(1);
                        }
                    }
                }
                if !weighted && (a.mult != b.mult) {
                    continue;
                }
                s.log(sim, format!("node from {a:?} and {b:?}"));
                let (ca, cb) = (a.con(sim), b.con(sim));
                for (c, m) in [(ca, a), (cb, b)] {
                    for v in 0..=s.n[m.id].max {
                        ensure!(c.map(v) == m.map(v), "shared:con", "{c:?} maps {v} to {} instead of {}", c.map(v), m.map(v));
                    }
                }
                let node = Node::internal(ca, cb, &s.db);
                let id = s.db.insert(node);
                ensure!(id.0 == s.n.len(), "shared:insert", "new node got {id}, after {:?}", s.hist);
                s.sync()?;
            }
            // trees over literals
            2 => {
                let k = sim.range(0, 5);
                let ls: Vec<i32> = (0..k).map(|_| sim.range(1, nv) as i32 * if sim.coin() { 1 } else { -1 }).collect();
                s.log(sim, format!("tree over {ls:?}"));
                let id = s.db.lit_tree(ls.iter().map(|l| lit(*l)));
                s.sync()?;
                let Some(id) = id else {
                    ensure!(ls.is_empty(), "shared:tree", "no tree over {ls:?}");
                    continue;
                };
                for a in 0..s.na {
                    let want = ls.iter().filter(|l| truth(**l, a)).count();
                    ensure!(s.n[id.0].val[a] == want, "shared:tree", "the tree {id} over {ls:?} computes {} instead of {want} on {:?}, after {:?}", s.n[id.0].val[a], assign(nv, a), s.hist);
                }
            }
            // weighted tree
            3 => {
                let k = sim.range(1, 4);
                let ls: Vec<(i32, usize)> = (0..k).map(|_| (sim.range(1, nv) as i32 * if sim.coin() { 1 } else { -1 }, sim.range(1, wmax))).collect();
                s.log(sim, format!("weighted tree over {ls:?}"));
                let lits: Vec<(Lit, usize)> = ls.iter().map(|l| (lit(l.0), l.1)).collect();
                let c = s.db.weighted_lit_tree(&lits);
                s.sync()?;
                let Some(c) = c else { simcore::bail!("shared:wtree", "no tree over {ls:?}") };
                for a in 0..s.na {
                    let want: usize = ls.iter().filter(|l| truth(l.0, a)).map(|l| l.1).sum();
                    let got = c.map(s.n[c.id.0].val[a]);
                    ensure!(got == want, "shared:wtree", "the tree {c:?} over {ls:?} computes {got} instead of {want} on {:?}, after {:?}", assign(nv, a), s.hist);
                }
            }
            // merge connections
            4 => {
                let k = sim.range(0, 4);
                let mut cs = vec![];
                for _ in 0..k {
                    if let Some(c) = s.gen_con(sim, wmax, false) {
                        if s.n[c.id].vals.len() <= 6 {
                            cs.push(c);
                        }
                    }
                }
                let mut cons: Vec<NodeCon> = cs.iter().map(|c| c.con(sim)).collect();
                let how = sim.range(0, 2);
                s.log(sim, format!("merge ({how}) {cs:?}"));
                let c = match how {
                    0 => s.db.merge(&mut cons),
                    1 => s.db.merge_balanced(&cons),
                    _ => s.db.merge_thorough(&mut cons),
                };
                s.sync()?;
                let Some(c) = c else {
                    ensure!(cs.is_empty(), "shared:merge", "{cs:?} were not merged");
                    continue;
                };
                for a in 0..s.na {
                    let want: usize = cs.iter().map(|c| c.map(s.n[c.id].val[a])).sum();
                    let got = c.map(s.n[c.id.0].val[a]);
                    ensure!(got == want, "shared:merge", "{cs:?} were merged to {c:?}, which computes {got} instead of {want} on {:?}, after {:?}", assign(nv, a), s.hist);
                }
            }
            // one output
            5 => {
                let Some(id) = s.pick(sim, &|_| true) else { continue };
                let n = s.n[id].clone();
                let general = n.kind == Kind::General;
                if general || (weighted && sim.chance(1, 4)) {
                    s.unstale(sim, Semantics::If);
                    let v = if sim.chance(1, 6) { sim.range(1, n.max) } else { *sim.pick(&n.vals.iter().copied().collect::<Vec<_>>()) };
                    s.log(sim, format!("define output {v} of {id}"));
                    s.budget(sim);
                    let r = s.db.define_weighted(NodeId(id), v, &mut s.col, &mut s.vm);
                    let Some(l) = s.outcome(sim, refused, r)? else { continue };
                    ensure!(l.is_some() == n.vals.contains(&v), "shared:define:possible", "output {v} of node {id} with values {:?} gives {l:?}, after {:?}", n.vals, s.hist);
                    if let Some(l) = l {
                        let l = l.to_ipasir();
                        s.ifs.insert((id, v), l);
                        s.known_if.insert((id, v));
                        s.check_if(sim, id, v, l)?;
                    }
                } else {
                    let m = sem(sim);
                    s.unstale(sim, m);
                    let v = sim.range(1, n.max);
                    s.log(sim, format!("define output {v} of {id} {m:?}"));
                    s.budget(sim);
                    let r = s.db.define_unweighted(NodeId(id), v - 1, m, &mut s.col, &mut s.vm);
                    let Some(l) = s.outcome(sim, refused, r)? else { continue };
                    let l = l.to_ipasir();
                    if m.has_if() {
                        s.ifs.insert((id, v), l);
                        s.known_if.insert((id, v));
                        s.check_if(sim, id, v, l)?;
                    }
                    if m.has_only_if() {
                        s.onlyifs.insert((id, v), l);
                        s.known_only.insert((id, v));
                        s.check_only(sim, id, v, l)?;
                    }
                }
                sim.nontrivial = sim.nontrivial || !oom;
                if s.n[id].reserved {
                    ensure!(s.vm.n_used() == used, "shared:reserved", "a new variable was needed for node {id}, all of whose variables were reserved, after {:?}", s.hist);
                }
            }
            // through a borrowing totalizer
            6 => {
                let Some(id) = s.pick(sim, &|n| n.kind == Kind::Unit || n.kind == Kind::Leaf) else { continue };
                tot(sim, &mut s, id)?;
            }
            7 => {
                let Some(mut c) = s.gen_con(sim, wmax, false) else { continue };
                c.lim = None;
                gte(sim, &mut s, c)?;
            }
            // reserve
            8 => {
                let Some(id) = s.pick(sim, &|_| true) else { continue };
                s.log(sim, format!("reserve {id}"));
                s.db.reserve_vars(NodeCon::full(NodeId(id)), &mut s.vm);
                s.n[id].reserved = true;
                for v in &s.n[id].vals {
                    ensure!(s.db[NodeId(id)].lit(*v).is_some(), "shared:reserve", "output {v} of node {id} has no variable although it was reserved, after {:?}", s.hist);
                }
                let (u, before) = (s.vm.n_used(), s.vm.n_used());
                s.db.reserve_vars(NodeCon::full(NodeId(id)), &mut s.vm);
                ensure!(s.vm.n_used() == before, "shared:reserve", "reserving twice used {} more variables, after {:?}", s.vm.n_used() - u, s.hist);
                // the tree is linear in its leaves
                for a in s.some(sim) {
                    let mut sum = 0;
                    for (l, w) in s.db.leaf_iter(NodeId(id)).lits() {
                        let l = l.to_ipasir();
                        let t = if l.abs() <= nv as i32 {
                            truth(l, a)
                        } else {
                            let Some((i, v)) = (0..s.n.len()).flat_map(|i| s.n[i].vals.iter().map(move |v| (i, *v))).find(|(i, v)| s.db[NodeId(*i)].lit(*v).is_some_and(|x| x.to_ipasir() == l)) else {
                                simcore::bail!("shared:leaves", "{l} is no output of any node, after {:?}", s.hist)
                            };
                            s.n[i].val[a] >= v
                        };
                        sum += if t { w } else { 0 };
                    }
                    ensure!(sum == s.n[id].val[a], "shared:leaves", "the leaves of node {id} add up to {sum} instead of {} on {:?}, after {:?}", s.n[id].val[a], assign(nv, a), s.hist);
                }
            }
            // resets
            9 => match sim.range(0, 2) {
                0 => {
                    let m = sem(sim);
                    s.log(sim, format!("reset {m:?}"));
                    s.db.reset_encoded(m);
                    s.forget(m);
                }
                1 => {
                    s.log(sim, "new collector, everything reset".into());
                    s.new_col();
                    s.db.reset_encoded(Semantics::IfAndOnlyIf);
                    s.forget(Semantics::IfAndOnlyIf);
                }
                _ => {
                    s.log(sim, "new collector, variables reset".into());
                    s.new_col();
                    s.db.reset_vars();
                    s.forget(Semantics::IfAndOnlyIf);
                    for n in &mut s.n {
                        n.reserved = false;
                    }
                }
            },
            // drain
            10 => drain(sim, &mut s)?,
            // values and assignments
            11 => {
                let a = sim.idx(s.na);
                let full: Assignment = assign(nv, a).into_iter().map(lit).collect();
                let mut map: BTreeMap<i32, bool> = BTreeMap::new();
                for i in 0..s.n.len() {
                    if s.n[i].kind == Kind::Dummy {
                        continue;
                    }
                    let got = s.db.value(NodeId(i), &full);
                    ensure!(got == s.n[i].val[a], "shared:value", "node {i} has value {} on {:?}, {got} was computed, after {:?}", s.n[i].val[a], assign(nv, a), s.hist);
                    for l in s.db.strictly_extend_assignment(NodeId(i), &full) {
                        let l = l.to_ipasir();
                        if let Some(b) = map.insert(l.abs(), l > 0) {
                            ensure!(b == (l > 0), "shared:extend:differs", "variable {} is assigned differently by two extensions of {:?}, after {:?}", l.abs(), assign(nv, a), s.hist);
                        }
                    }
                }
                for i in 0..s.n.len() {
                    if s.n[i].kind == Kind::Leaf {
                        continue;
                    }
                    for v in &s.n[i].vals {
                        if let Some(l) = s.db[NodeId(i)].lit(*v) {
                            let l = l.to_ipasir();
                            ensure!(map.get(&l) == Some(&(s.n[i].val[a] >= *v)), "shared:extend", "output {v} ({l}) of node {i} is assigned {:?} on {:?}, where the node has value {}, after {:?}", map.get(&l), assign(nv, a), s.n[i].val[a], s.hist);
                        }
                    }
                }
                for c in &s.col.cls {
                    let known = c.iter().all(|l| l.abs() <= nv as i32 || map.contains_key(&l.abs()));
                    let sat = c.iter().any(|l| if l.abs() <= nv as i32 { truth(*l, a) } else { map.get(&l.abs()) == Some(&(*l > 0)) });
                    ensure!(!known || sat, "shared:extend:clause", "the strict extension of {:?} falsifies the clause {c:?}, after {:?}", assign(nv, a), s.hist);
                }
            }
            // a dummy
            _ => {
                s.log(sim, "dummy".into());
                let id = s.db.insert(Node::Dummy);
                ensure!(id.0 < s.db.len() && s.db[id] == Node::Dummy, "shared:dummy", "the dummy was inserted as {id}, after {:?}", s.hist);
                s.sync()?;
            }
        }
        s.fresh_vars(before.min(s.col.cls.len()))?;
        s.alone(sim)?;
        for _ in 0..2 {
            if let Some((&(id, v), &l)) = s.ifs.iter().nth(sim.idx(s.ifs.len().max(1))) {
                s.check_if(sim, id, v, l)?;
            }
            if let Some((&(id, v), &l)) = s.onlyifs.iter().nth(sim.idx(s.onlyifs.len().max(1))) {
                s.check_only(sim, id, v, l)?;
            }
        }
        sim.state(simcore::sim::mix(shape, (s.n.len() * 64 + s.ifs.len() * 8 + s.onlyifs.len()) as u64));
    }
    sim.op(if weighted { "shared database, weighted" } else { "shared database" });
    sim.st.shapes.insert(shape);
    Ok(())
}

fn tot(sim: &mut Sim, s: &mut St, id: usize) -> Outcome {
    use card::{BoundBoth, BoundBothIncremental, BoundLower, BoundLowerIncremental, BoundUpper, BoundUpperIncremental, Encode, EncodeIncremental};
    let cell = sim.coin();
    let n = s.n[id].clone();
    let (a, b) = (sim.range(0, n.max + 1), sim.range(0, n.max + 1));
    let r = a.min(b)..=a.max(b);
    let rel = *sim.pick(&[Rel::Ub, Rel::Lb, Rel::Eq]);
    let change = sim.coin();
    let fresh = !change && sim.chance(1, 3);
    let dir = match rel {
        Rel::Ub => Semantics::If,
        Rel::Lb => Semantics::OnlyIf,
        Rel::Eq => Semantics::IfAndOnlyIf,
    };
    if fresh {
        s.log(sim, "new collector".into());
        s.new_col();
        s.stale_if = true;
        s.stale_only = true;
    }
    if change {
        s.unstale(sim, dir);
    }
    s.log(sim, format!("totalizer on node {id}{}: {rel:?} {r:?}{}", if cell { " (cell)" } else { "" }, if change { " change" } else { "" }));
    let refused = s.col.refused;
    s.budget(sim);
    macro_rules! enc {
        ($t:expr) => {{
            let mut t = $t;
            if sim.chance(1, 6) {
                t.reserve(&mut s.vm);
            }
            let r = r.clone();
            (
                match (rel, change) {
                    (Rel::Ub, false) => t.encode_ub(r, &mut s.col, &mut s.vm),
                    (Rel::Ub, true) => t.encode_ub_change(r, &mut s.col, &mut s.vm),
                    (Rel::Lb, false) => t.encode_lb(r, &mut s.col, &mut s.vm),
                    (Rel::Lb, true) => t.encode_lb_change(r, &mut s.col, &mut s.vm),
                    (Rel::Eq, false) => t.encode_both(r, &mut s.col, &mut s.vm),
                    (Rel::Eq, true) => t.encode_both_change(r, &mut s.col, &mut s.vm),
                },
                t.n_lits(),
            )
        }};
    }
    if !change {
        s.forget(dir);
    }
    let (res, n_lits) = if cell {
        let c = RefCell::new(&mut s.db);
        enc!(card::totalizer::referenced::TotCell::new(NodeId(id), &c))
    } else {
        enc!(card::totalizer::referenced::Tot::new(NodeId(id), &mut s.db))
    };
    ensure!(n_lits == n.max, "shared:tot:lits", "{n_lits} literals reported for node {id} with {} outputs", n.max);
    let ok = s.outcome(sim, refused, res)?.is_some();
    for b in r {
        if !ok {
            break;
        }
        if rel != Rel::Lb && b < n.max {
            s.known_if.insert((id, b + 1));
        }
        if rel != Rel::Ub && b > 0 && b <= n.max {
            s.known_only.insert((id, b));
        }
    }
    sim.nontrivial = sim.nontrivial || !s.oom;
    for _ in 0..2 {
        let b = sim.range(0, n.max + 1);
        let q = *sim.pick(&[Rel::Ub, Rel::Lb, Rel::Eq]);
        if (q != Rel::Lb && s.stale_if) || (q != Rel::Ub && s.stale_only) {
            continue;
        }
        macro_rules! enf {
            ($t:expr) => {{
                let t = $t;
                match q {
                    Rel::Ub => t.enforce_ub(b).map_err(EnforceError::from),
                    Rel::Lb => t.enforce_lb(b),
                    Rel::Eq => t.enforce_eq(b),
                }
            }};
        }
        let res = if sim.coin() {
            let c = RefCell::new(&mut s.db);
            enf!(card::totalizer::referenced::TotCell::new(NodeId(id), &c))
        } else {
            enf!(card::totalizer::referenced::Tot::new(NodeId(id), &mut s.db))
        };
        let cov_u = b >= n.max || n.kind == Kind::Leaf || s.known_if.contains(&(id, b + 1));
        let cov_l = b == 0 || b > n.max || n.kind == Kind::Leaf || s.known_only.contains(&(id, b));
        let cov = (q == Rel::Lb || cov_u) && (q == Rel::Ub || cov_l);
        match res {
            Ok(x) => {
                let x: Vec<i32> = x.iter().map(|l| l.to_ipasir()).collect();
                ensure!(q == Rel::Ub || b <= n.max, "shared:tot:impossible", "{q:?} {b} of {} is impossible, but {x:?} was returned", n.max);
                for a in s.some(sim) {
                    let v = n.val[a];
                    let want = match q {
                        Rel::Ub => v <= b,
                        Rel::Lb => v >= b,
                        Rel::Eq => v == b,
                    };
                    let mut y = assign(s.nv, a);
                    y.extend_from_slice(&x);
                    let got = s.col.sat.solve(&y).is_some();
                    ensure!(got == want, format!("shared:tot:bound:{q:?}:{}", if got { "allows" } else { "excludes" }), "node {id}, {q:?} {b} as {x:?}: the inputs {:?} have value {v}, after {:?}", assign(s.nv, a), s.hist);
                }
            }
            Err(EnforceError::NotEncoded) => ensure!(!cov, format!("shared:tot:notencoded:{q:?}"), "node {id}, {q:?} {b} is reported as not encoded, after {:?}", s.hist),
            Err(EnforceError::Unsat) => ensure!(q != Rel::Ub && b > n.max, "shared:tot:unsat", "node {id}, {q:?} {b} is reported as impossible, after {:?}", s.hist),
        }
    }
    Ok(())
}

fn gte(sim: &mut Sim, s: &mut St, c: C) -> Outcome {
    use pb::{BoundUpper, BoundUpperIncremental, Encode, EncodeIncremental};
    let cell = sim.coin();
    let n = s.n[c.id].clone();
    let con = c.con(sim);
    let sum = c.map(n.max);
    let maxw = n.maxw * c.mult;
    let (a, b) = (sim.range(0, sum + 1), sim.range(0, sum + 1));
    let r = a.min(b)..=a.max(b);
    let change = sim.coin();
    let fresh = !change && sim.chance(1, 3);
    if fresh {
        s.log(sim, "new collector".into());
        s.new_col();
        s.stale_if = true;
        s.stale_only = true;
    }
    if change {
        s.unstale(sim, Semantics::If);
    }
    s.log(sim, format!("generalized totalizer on {c:?}{}: {r:?}{}", if cell { " (cell)" } else { "" }, if change { " change" } else { "" }));
    let refused = s.col.refused;
    s.budget(sim);
    let reserve = sim.chance(1, 6);
    macro_rules! enc {
        ($t:expr) => {{
            let mut t = $t;
            if reserve {
                t.reserve(&mut s.vm);
            }
            let u = s.vm.n_used();
            let res = if change { t.encode_ub_change(r.clone(), &mut s.col, &mut s.vm) } else { t.encode_ub(r.clone(), &mut s.col, &mut s.vm) };
            ensure!(!reserve || s.vm.n_used() == u, "shared:gte:reserved", "encoding needed new variables although all were reserved, after {:?}", s.hist);
            ensure!(t.weight_sum() == sum, "shared:gte:sum", "sum {} instead of {sum}, after {:?}", t.weight_sum(), s.hist);
            let v = sim.range(0, sum);
            let vals: BTreeSet<usize> = n.vals.iter().map(|v| c.map(*v)).collect();
            if v < sum {
                let h = t.next_higher(v);
                let skipped = vals.range(v + 1..h.max(v + 1)).next();
                ensure!(h > v && skipped.is_none(), "shared:gte:next_higher", "next_higher({v}) = {h}, but {skipped:?} is possible, after {:?}", s.hist);
            }
            if v > 0 {
                let h = t.next_lower(v);
                let skipped = vals.range((h + 1).min(v)..v).next();
                ensure!(h < v && skipped.is_none(), "shared:gte:next_lower", "next_lower({v}) = {h}, but {skipped:?} is possible, after {:?}", s.hist);
            }
            res
        }};
    }
    if !change {
        s.forget(Semantics::If);
    }
    let res = if cell {
        let rc = RefCell::new(&mut s.db);
        enc!(pb::gte::referenced::GteCell::new(con, maxw, &rc))
    } else {
        enc!(pb::gte::referenced::Gte::new(con, maxw, &mut s.db))
    };
    let ok = s.outcome(sim, refused, res)?.is_some();
    sim.nontrivial = sim.nontrivial || !s.oom;
    for _ in 0..2 {
        let b = sim.range(0, sum + 1);
        let res = if sim.coin() {
            let rc = RefCell::new(&mut s.db);
            pb::gte::referenced::GteCell::new(con, maxw, &rc).enforce_ub(b)
        } else {
            pb::gte::referenced::Gte::new(con, maxw, &mut s.db).enforce_ub(b)
        };
        match res {
            Ok(x) => {
                let x: Vec<i32> = x.iter().map(|l| l.to_ipasir()).collect();
                for a in s.some(sim) {
                    let v = c.map(n.val[a]);
                    let mut y = assign(s.nv, a);
                    y.extend_from_slice(&x);
                    let got = s.col.sat.solve(&y).is_some();
                    ensure!(got == (v <= b), format!("shared:gte:bound:{}", if got { "allows" } else { "excludes" }), "{c:?} bounded by {b} as {x:?}: the inputs {:?} have value {v}, after {:?}", assign(s.nv, a), s.hist);
                }
            }
            Err(EnforceError::NotEncoded) => ensure!(!(ok && r.contains(&b)) && b < sum, "shared:gte:notencoded", "{c:?} bounded by {b} is reported as not encoded, after {:?}", s.hist),
            Err(EnforceError::Unsat) => simcore::bail!("shared:gte:unsat", "{c:?} bounded by {b} is reported as impossible, after {:?}", s.hist),
        }
    }
    Ok(())
}

fn drain(sim: &mut Sim, s: &mut St) -> Outcome {
    let len = s.n.len();
    let a = sim.range(0, len);
    let b = if sim.coin() { len } else { (a + sim.range(0, 3)).min(len) };
    let a = if sim.coin() { a } else { a.max(len.saturating_sub(2)).min(b) };
    s.log(sim, format!("drain {a}..{b}"));
    let inside = |i: &NodeId| i.0 >= a && i.0 < b;
    let refs = (b..len).find(|i| s.n[*i].kids.is_some_and(|(l, r)| inside(&l) || inside(&r)));
    let dummies: Vec<usize> = (0..len).filter(|i| s.n[*i].kind == Kind::Dummy).collect();
    let res = match sim.range(0, 2) {
        0 if b == len => s.db.drain(NodeId(a)..).map(Iterator::count),
        1 if b > a => s.db.drain(NodeId(a)..=NodeId(b - 1)).map(Iterator::count),
        _ => s.db.drain(NodeId(a)..NodeId(b)).map(Iterator::count),
    };
    match res {
        Ok(k) => {
            ensure!(refs.is_none() || a == b, "shared:drain:referenced", "nodes {a}..{b} were drained although node {refs:?} refers to them, after {:?}", s.hist);
            ensure!(k == b - a && s.db.len() == len - k, "shared:drain:count", "{k} nodes drained for {a}..{b}, {} of {len} left, after {:?}", s.db.len(), s.hist);
            let mv = |i: usize| if i >= b { Some(i - (b - a)) } else if i < a { Some(i) } else { None };
            s.n.drain(a..b);
            for n in &mut s.n {
                if let Some((l, r)) = &mut n.kids {
                    l.0 = mv(l.0).unwrap();
                    r.0 = mv(r.0).unwrap();
                }
            }
            s.leaves = s.leaves.iter().filter_map(|(l, i)| Some((*l, mv(*i)?))).collect();
            for m in [&mut s.ifs, &mut s.onlyifs] {
                *m = m.iter().filter_map(|((i, v), l)| Some(((mv(*i)?, *v), *l))).collect();
            }
            for m in [&mut s.known_if, &mut s.known_only] {
                *m = m.iter().filter_map(|(i, v)| Some((mv(*i)?, *v))).collect();
            }
        }
        Err(e) => {
            ensure!(refs.is_some() && b > a, "shared:drain:error", "{e}, but no node refers to {a}..{b}, after {:?}", s.hist);
            let ok = e.referencing.0 < len && s.n[e.referencing.0].kids.is_some_and(|(l, r)| l == e.referenced || r == e.referenced) && inside(&e.referenced);
            ensure!(ok, "shared:drain:who", "{e} is not the reason, after {:?}", s.hist);
            ensure!(s.db.len() == len, "shared:drain:partial", "{} of {len} nodes left after a refused drain, after {:?}", s.db.len(), s.hist);
            sim.probe("drain refused");
        }
    }
    for (i, n) in s.n.iter().enumerate() {
        let node = &s.db[NodeId(i)];
        let kids = node.left().zip(node.right()).map(|(l, r)| (l.id, r.id));
        ensure!(kind(node) == n.kind && kids == n.kids, "shared:drain:references", "node {i} is a {:?} of {kids:?}, should be a {:?} of {:?}, after {:?}", kind(node), n.kind, n.kids, s.hist);
    }
    let _ = dummies;
    Ok(())
}

pub fn p13(sim: &mut Sim) -> Outcome {
    drive(sim, false, false)
}
pub fn p14(sim: &mut Sim) -> Outcome {
    drive(sim, true, false)
}
pub fn p15(sim: &mut Sim) -> Outcome {
    let w = sim.coin();
    drive(sim, w, true)
}
