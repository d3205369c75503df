//! Text of instances with all the freedom the formats leave, and what it denotes
use crate::model::{gen_coef, gen_lit, Con, Doc, Obj, Op};
use simcore::Sim;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fmt {
    Cnf,
    WcnfOld,
    WcnfNew,
    Mcnf,
    OpbSat,
    OpbOpt,
    OpbMulti,
}

pub const FMTS: [Fmt; 7] =
    [Fmt::Cnf, Fmt::WcnfOld, Fmt::WcnfNew, Fmt::Mcnf, Fmt::OpbSat, Fmt::OpbOpt, Fmt::OpbMulti];

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Comment(String),
    Hard(Vec<i32>),
    /// objective index (0 for WCNF), weight, clause
    Soft(usize, i64, Vec<i32>),
    Con(Con),
    /// terms as written, maximise?
    Obj(Vec<(i64, i32)>, bool),
}

#[derive(Clone, Debug)]
pub struct Text {
    pub fmt: Fmt,
    pub text: String,
    /// what a line parser reports, header excluded
    pub items: Vec<Item>,
    /// number of leading comments (before the header or first clause)
    pub head_comments: usize,
    pub header: Option<(u32, usize, usize)>,
    pub doc: Doc,
    pub first_idx: u32,
}

fn ws(sim: &mut Sim) -> &'static str {
    *sim.pick(&[" ", " ", " ", "  ", "\t", " \t "])
}
fn nl(sim: &mut Sim, crlf: bool) -> &'static str {
    let _ = sim;
    if crlf {
        "\r\n"
    } else {
        "\n"
    }
}

fn cls(sim: &mut Sim, nv: usize) -> Vec<i32> {
    let n = if sim.chance(1, 12) { 0 } else { sim.range(1, 4) };
    (0..n).map(|_| gen_lit(sim, nv)).collect()
}

fn put_clause(sim: &mut Sim, out: &mut String, c: &[i32], plain: bool) {
    for l in c {
        out.push_str(&l.to_string());
        out.push_str(if plain { " " } else { ws(sim) });
    }
    out.push('0');
}

fn filler(sim: &mut Sim, out: &mut String, items: &mut Vec<Item>, crlf: bool, comment: char, plain: bool) -> bool {
    if plain {
        return false;
    }
    match sim.weighted(&[8, 2, 1]) {
        0 => false,
        1 => {
            let body = *sim.pick(&[
                "",
                " a comment",
                " p cnf 3 3",
                " 1 2 0",
                "\ttabs\tand 0",
                " \u{e9}\u{4e2d} non-ascii",
                " min: 1 x1;",
                "omment without space",
                " h 1 0",
            ]);
            let l = format!("{comment}{body}");
            out.push_str(&l);
            out.push_str(nl(sim, crlf));
            items.push(Item::Comment(l));
            true
        }
        _ => {
            out.push_str(*sim.pick(&["", " ", "\t"]));
            out.push_str(nl(sim, crlf));
            false
        }
    }
}

/// one constraint, term by term, as OPB; returns the constraint as the text says
fn put_terms(sim: &mut Sim, out: &mut String, terms: &[(i64, i32)], idx: u32, plain: bool, neg_ok: bool) {
    for &(c, l) in terms {
        if c >= 0 && !plain && sim.coin() {
            out.push('+');
        }
        out.push_str(&c.to_string());
        out.push_str(if plain { " " } else { ws(sim) });
        if l < 0 {
            debug_assert!(neg_ok);
            out.push(if plain || sim.coin() { '~' } else { '-' });
        }
        out.push_str(&format!("x{}", l.unsigned_abs() - 1 + idx));
        out.push_str(if plain { " " } else { ws(sim) });
    }
}

pub fn gen_text(sim: &mut Sim, fmt: Fmt) -> Text {
    gen_text_with(sim, fmt, 5)
}

pub fn gen_text_with(sim: &mut Sim, fmt: Fmt, max_nv: usize) -> Text {
    let nv = sim.range(1, max_nv);
    let plain = sim.coin();
    let crlf = !plain && sim.chance(1, 5);
    let n = sim.range(0, 7);
    let mut t = Text {
        fmt,
        text: String::new(),
        items: vec![],
        head_comments: 0,
        header: None,
        doc: Doc { nv, ..Doc::default() },
        first_idx: 0,
    };
    let mut out = String::new();
    let mut items = vec![];
    let com = if matches!(fmt, Fmt::OpbSat | Fmt::OpbOpt | Fmt::OpbMulti) { '*' } else { 'c' };
    while items.len() < 3 && filler(sim, &mut out, &mut items, crlf, com, plain) {}
    t.head_comments = items.len();
    let top = sim.range(8, 40) as i64;
    match fmt {
        Fmt::Cnf => {
            let hv = nv as u32 + sim.choose(3) as u32;
            out.push_str(&format!("p{}cnf{}{hv}{}{n}", ws(sim), ws(sim), ws(sim)));
            out.push_str(if plain { "" } else { *sim.pick(&["", " "]) });
            out.push_str(nl(sim, crlf));
            t.header = Some((hv, n, 0));
        }
        Fmt::WcnfOld => {
            let hv = nv as u32 + sim.choose(3) as u32;
            out.push_str(&format!("p{}wcnf{}{hv}{}{n}{}{top}", ws(sim), ws(sim), ws(sim), ws(sim)));
            out.push_str(nl(sim, crlf));
            t.header = Some((hv, n, top as usize));
        }
        Fmt::Mcnf => {}
        _ => {}
    }
    let mut n_objs = 0;
    match fmt {
        Fmt::Cnf | Fmt::WcnfOld | Fmt::WcnfNew | Fmt::Mcnf => {
            if fmt != Fmt::Cnf && fmt != Fmt::Mcnf {
                t.doc.objs.push(Obj::default());
            }
            for i in 0..n {
                if i > 0 || fmt != Fmt::WcnfNew {
                    filler(sim, &mut out, &mut items, crlf, com, plain);
                }
                let c = cls(sim, nv);
                if !plain && sim.chance(1, 8) {
                    out.push_str(ws(sim));
                }
                let hard = fmt == Fmt::Cnf || sim.coin();
                if hard {
                    match fmt {
                        Fmt::WcnfOld => {
                            let w = if sim.chance(1, 4) { top + sim.irange(0, 5) } else { top };
                            out.push_str(&format!("{w}{}", ws(sim)));
                        }
                        Fmt::WcnfNew | Fmt::Mcnf => out.push_str(&format!("h{}", ws(sim))),
                        _ => {}
                    }
                    put_clause(sim, &mut out, &c, plain);
                    t.doc.cons.push(Con::clause(&c));
                    items.push(Item::Hard(c));
                } else {
                    let w = if fmt == Fmt::WcnfOld { sim.irange(1, top - 1) } else { sim.irange(1, 9) };
                    let mut oi = 0;
                    match fmt {
                        Fmt::Mcnf => {
                            oi = sim.range(1, 3);
                            let sep = if sim.chance(1, 4) { "" } else { ws(sim) };
                            out.push_str(&format!("o{sep}{oi}{}", ws(sim)));
                            n_objs = n_objs.max(oi);
                        }
                        _ => {}
                    }
                    out.push_str(&format!("{w}{}", ws(sim)));
                    put_clause(sim, &mut out, &c, plain);
                    while t.doc.objs.len() < oi.max(1) {
                        t.doc.objs.push(Obj::default());
                    }
                    t.doc.objs[oi.max(1) - 1].softs.push((w, c.clone()));
                    items.push(Item::Soft(oi, w, c));
                }
                if !plain && sim.chance(1, 6) {
                    out.push_str(ws(sim));
                }
                out.push_str(nl(sim, crlf));
            }
        }
        _ => {
            let idx = sim.choose(3) as u32;
            t.first_idx = idx;
            let nobj = match fmt {
                Fmt::OpbSat => 0,
                Fmt::OpbOpt => 1,
                _ => sim.range(0, 3),
            };
            let neg_ok = sim.coin();
            let abs = |l: i32| if neg_ok { l } else { l.abs() };
            // objectives may come anywhere
            let mut slots: Vec<bool> = vec![false; n];
            for _ in 0..nobj {
                let at = if sim.coin() { 0 } else { sim.idx(slots.len() + 1) };
                slots.insert(at, true);
            }
            let mut pending = false; // previous statement ended with ';' on the same line
            for is_obj in slots {
                if !pending {
                    filler(sim, &mut out, &mut items, crlf, com, plain);
                }
                if !plain && sim.chance(1, 8) {
                    out.push_str(ws(sim));
                }
                if is_obj {
                    let k = sim.range(0, 4);
                    let terms: Vec<(i64, i32)> =
                        (0..k).map(|_| (gen_coef(sim), abs(gen_lit(sim, nv)))).collect();
                    let max = sim.chance(1, 3);
                    out.push_str(if max { "max:" } else { "min:" });
                    out.push_str(if plain { " " } else { *sim.pick(&[" ", "", "  "]) });
                    put_terms(sim, &mut out, &terms, idx, plain, neg_ok);
                    // each term counts when its literal is true
                    let mut o = Obj::default();
                    for &(c, l) in &terms {
                        let c = if max { -c } else { c };
                        o.softs.push((c, vec![-l]));
                    }
                    t.doc.objs.push(o);
                    items.push(Item::Obj(terms, max));
                } else {
                    let mut c = crate::model::gen_con(sim, nv);
                    for x in &mut c.terms {
                        x.1 = abs(x.1);
                    }
                    put_terms(sim, &mut out, &c.terms, idx, plain, neg_ok);
                    out.push_str(match c.op {
                        Op::Ge => ">=",
                        Op::Le => "<=",
                        Op::Eq => "=",
                        Op::Lt => "<",
                        Op::Gt => ">",
                    });
                    out.push_str(if plain { " " } else { *sim.pick(&[" ", "", "  "]) });
                    if c.rhs >= 0 && !plain && sim.chance(1, 3) {
                        out.push('+');
                    }
                    out.push_str(&c.rhs.to_string());
                    t.doc.cons.push(c.clone());
                    items.push(Item::Con(c));
                }
                if !plain && sim.chance(1, 3) {
                    out.push_str(ws(sim));
                }
                pending = false;
                match if plain { 0 } else { sim.weighted(&[6, 1, 1]) } {
                    0 => {
                        out.push(';');
                        out.push_str(nl(sim, crlf));
                    }
                    1 => out.push_str(nl(sim, crlf)),
                    _ => {
                        out.push(';');
                        out.push_str(*sim.pick(&[" ", "", "  "]));
                        pending = true;
                    }
                }
            }
        }
    }
    if sim.chance(1, 4) {
        // no line break at the end of the file
        while out.ends_with('\n') || out.ends_with('\r') {
            out.pop();
        }
    } else if !plain {
        filler(sim, &mut out, &mut items, crlf, com, plain);
    }
    if fmt == Fmt::WcnfNew {
        t.head_comments = items.iter().take_while(|i| matches!(i, Item::Comment(_))).count();
    }
    t.text = out;
    t.items = items;
    t
}
