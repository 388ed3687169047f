//! Generator of well-typed programs.
use std::rc::Rc;

use crate::choice::Src;
use crate::lang::*;

#[derive(Clone, Debug)]
pub struct Feats {
    pub strings: u32,
    pub arrays: u32,
    pub records: u32,
    pub adts: u32,
    pub opts: u32,
    pub closures: u32,
    pub loops: u32,
    pub refs: u32,
    pub recursion: u32,
    pub generics: u32,
    pub traits: u32,
    pub host: u32,
    pub tracked: u32,
    pub floats: u32,
    pub failing: u32,
    pub early: u32,
    pub shadow: u32,
    pub redundant: u32,
    /// Nodes in the whole program.
    pub budget: i64,
    pub max_funs: usize,
}

impl Feats {
    /// Each feature absent, present or frequent, so that programs differ in kind.
    pub fn swarm(s: &mut Src) -> Feats {
        let mut w = |p: u32| -> u32 {
            match s.below(10) {
                0..=3 => p,
                4..=6 => 0,
                _ => p * 3,
            }
        };
        Feats {
            strings: w(2),
            arrays: w(3),
            records: w(2),
            adts: w(2),
            opts: w(2),
            closures: w(2),
            loops: w(2),
            refs: w(2),
            recursion: w(1),
            generics: w(1),
            traits: w(1),
            host: 0,
            tracked: 0,
            floats: w(1),
            failing: w(1),
            early: w(1),
            shadow: w(2),
            redundant: w(1),
            budget: 25 + s.below(95) as i64,
            max_funs: 4,
        }
    }
}

struct LoopCtx {
    label: Option<usize>,
    brk: Option<Ty>,
}

/// One generic helper: its text and index are registered on first use.
const GENERICS: [&str; 9] = ["idg", "fstg", "swpg", "appg", "twiceg", "ifg", "eqg", "setg", "addg"];

pub struct G<'a> {
    pub s: &'a mut Src,
    pub p: Prog,
    pub f: Feats,
    scope: Vec<Var>,
    frozen: Vec<Var>,
    loops: Vec<LoopCtx>,
    ret: Option<Ty>,
    left: i64,
    /// Functions that may be called: index and, for the one being defined, its guard parameter.
    current: Option<(usize, Var)>,
    generics: Vec<Option<usize>>,
    labels: usize,
    /// Variables no generated code may assign (loop counters, recursion guards).
    protected: Vec<Var>,
    /// Nesting of closures: captured variables are private copies.
    lambda_depth: usize,
    /// Set while generating expressions that must have no effect and depend on nothing assigned.
    pure_: bool,
    pub labels_seen: Vec<&'static str>,
}

type Saved = (usize, usize);

impl<'a> G<'a> {
    pub fn new(s: &'a mut Src, f: Feats) -> G<'a> {
        let left = f.budget;
        G {
            s,
            p: Prog::default(),
            f,
            scope: vec![],
            frozen: vec![],
            loops: vec![],
            ret: None,
            left,
            current: None,
            generics: vec![None; GENERICS.len()],
            labels: 0,
            protected: vec![],
            lambda_depth: 0,
            pure_: false,
            labels_seen: vec![],
        }
    }
    fn seen(&mut self, l: &'static str) {
        if !self.labels_seen.contains(&l) {
            self.labels_seen.push(l);
        }
    }
    fn on(&mut self, w: u32) -> bool {
        w > 0 && self.s.chance(w as u64, (w + 4) as u64)
    }

    // ---- names and scope ----
    fn name(&mut self) -> String {
        const POOL: [&str; 14] = ["a", "b", "c", "d", "x", "y", "z", "n", "acc", "tmp", "v1", "item", "r#type", "é_2"];
        if self.f.shadow > 0 {
            let k = if self.f.shadow > 2 { 4 } else { POOL.len() };
            return POOL[self.s.idx(k)].into();
        }
        format!("v{}", self.p.vars.len())
    }
    fn declare(&mut self, ty: Ty, mutable: bool) -> Var {
        let n = self.name();
        self.p.new_var(&n, ty, mutable)
    }
    fn visible(&self) -> Vec<Var> {
        let mut names: Vec<&str> = vec![];
        let mut out = vec![];
        for v in self.scope.iter().rev() {
            let n = self.p.vars[*v].name.as_str();
            if !names.contains(&n) {
                names.push(n);
                out.push(*v);
            }
        }
        out
    }
    fn save(&self) -> Saved {
        (self.scope.len(), self.frozen.len())
    }
    fn restore(&mut self, s: Saved) {
        self.scope.truncate(s.0);
        self.frozen.truncate(s.1);
    }

    // ---- types ----
    pub fn ty(&mut self, d: u32) -> Ty {
        let f = self.f.clone();
        let deep = if d == 0 { 0 } else { 1 };
        match self.s.weighted(&[
            6,
            3,
            1,
            f.floats,
            f.strings * 2,
            f.records * deep * 2,
            f.records * deep,
            f.arrays * deep * 3,
            f.opts * deep,
            if self.p.adts.is_empty() { 0 } else { f.adts * 2 },
            f.tracked * 2,
        ]) {
            0 => Ty::Int,
            1 => Ty::Bool,
            2 => Ty::Unit,
            3 => Ty::Float,
            4 => Ty::Str,
            5 => {
                let n = 1 + self.s.len(1, 2);
                Ty::Tup((0..n).map(|_| self.ty(d - 1)).collect())
            }
            6 => {
                let names = ["p", "q", "x"];
                let n = self.s.len(1, 3);
                Ty::Rec((0..n).map(|i| (names[i].to_string(), self.ty(d - 1))).collect())
            }
            7 => Ty::arr(self.ty(d - 1)),
            8 => Ty::opt(self.ty(d - 1)),
            9 => Ty::Adt(self.s.idx(self.p.adts.len())),
            _ => Ty::Tracked,
        }
    }
    fn fun_ty(&mut self) -> Ty {
        let n = self.s.idx(3);
        let params = (0..n).map(|_| (self.f.refs > 0 && self.s.chance(1, 6), self.ty(1))).collect();
        Ty::Fun(params, Box::new(self.ty(1)))
    }
    /// Whether `==` and text conversion apply (no functions inside).
    fn comparable(&self, t: &Ty) -> bool {
        !t.has_fun(&self.p)
    }
    fn make_adts(&mut self) {
        if self.f.adts == 0 {
            return;
        }
        let n = self.s.len(1, 3);
        for i in 0..n {
            let is_struct = self.s.flip();
            let k = if is_struct { 1 } else { 1 + self.s.len(1, 3) };
            let variants = (0..k)
                .map(|j| {
                    let saved = self.f.tracked;
                    // The type of tracked values has no name to write in a declaration.
                    self.f.tracked = 0;
                    let p = match self.s.below(if is_struct { 2 } else { 3 }) {
                        0 => {
                            let m = self.s.len(1, 3);
                            Payload::Tup((0..m).map(|_| self.ty(1)).collect())
                        }
                        1 => {
                            let m = self.s.len(1, 3);
                            Payload::Rec((0..m).map(|k| (["b", "a", "c"][k].to_string(), self.ty(1))).collect())
                        }
                        _ => Payload::Unit,
                    };
                    self.f.tracked = saved;
                    (format!("K{i}{j}"), p)
                })
                .collect();
            self.p.adts.push(Adt { name: format!("T{i}"), is_struct, variants });
        }
    }

    // ---- places ----
    fn paths(&mut self, base: E, t: &Ty, d: u32, out: &mut Vec<(E, Ty)>) {
        out.push((base.clone(), t.clone()));
        if d == 0 || out.len() > 60 {
            return;
        }
        let mut sub = |g: &mut Self, f: Fld, t: &Ty| {
            let e = E::Field(Box::new(base.clone()), f);
            g.paths(e, t, d - 1, out);
        };
        match t {
            Ty::Tup(v) => {
                for (i, t) in v.iter().enumerate() {
                    sub(self, Fld::Pos(i), t);
                }
            }
            Ty::Rec(v) => {
                for (n, t) in v {
                    sub(self, Fld::Name(n.clone()), t);
                }
            }
            Ty::Adt(a) if self.p.adts[*a].is_struct => match self.p.adts[*a].variants[0].1.clone() {
                Payload::Tup(v) => {
                    for (i, t) in v.iter().enumerate() {
                        sub(self, Fld::Pos(i), t);
                    }
                }
                Payload::Rec(v) => {
                    for (n, t) in &v {
                        sub(self, Fld::Name(n.clone()), t);
                    }
                }
                Payload::Unit => {}
            },
            Ty::Arr(t) => {
                // The index is filled in when the path is chosen.
                let e = E::Index(Box::new(base.clone()), Box::new(E::Lit(Lit::Unit)));
                self.paths(e, t, d - 1, out);
            }
            _ => {}
        }
    }
    fn root(e: &E) -> Option<Var> {
        match e {
            E::Var(v) => Some(*v),
            E::Field(x, _) | E::Index(x, _) | E::Paren(x) => Self::root(x),
            _ => None,
        }
    }
    fn indexed(e: &E) -> bool {
        match e {
            E::Index(..) => true,
            E::Field(x, _) | E::Paren(x) => Self::indexed(x),
            _ => false,
        }
    }
    fn index_expr(&mut self, base: &E, d: u32) -> E {
        match self.s.weighted(&[8, 3, 3, 3, self.f.failing, 2]) {
            0 => E::Lit(Lit::Int(0)),
            1 => E::Lit(Lit::Int(-1)),
            2 => E::Lit(Lit::Int(1)),
            3 => {
                // A protected counter, when there is one.
                let vis = self.visible();
                let c: Vec<Var> =
                    vis.into_iter().filter(|v| self.protected.contains(v) && self.p.vars[*v].ty == Ty::Int).collect();
                if c.is_empty() { E::Lit(Lit::Int(0)) } else { E::Var(*self.s.pick(&c)) }
            }
            4 => E::Lit(Lit::Int(self.s.range(-4, 5))),
            _ if self.pure_ || d == 0 => E::Bin(
                Op::Sub,
                Box::new(E::Call(Callee::Std("len"), vec![Self::pure_copy(base)])),
                Box::new(E::Lit(Lit::Int(1))),
            ),
            _ => self.expr(&Ty::Int, d.min(1)),
        }
    }
    /// The same place again, for a length.
    fn pure_copy(e: &E) -> E {
        e.clone()
    }
    fn fill(&mut self, e: E, d: u32) -> E {
        match e {
            E::Index(b, _) => {
                let b = self.fill(*b, d);
                let i = self.index_expr(&b, d);
                E::Index(Box::new(b), Box::new(i))
            }
            E::Field(b, f) => E::Field(Box::new(self.fill(*b, d)), f),
            e => e,
        }
    }
    fn places(&mut self, want: &Ty, write: bool) -> Vec<E> {
        let mut out = vec![];
        for v in self.visible() {
            let info = self.p.vars[v].clone();
            if write && (!info.mutable || self.frozen.contains(&v) || self.protected.contains(&v)) {
                continue;
            }
            let mut ps = vec![];
            self.paths(E::Var(v), &info.ty, 3, &mut ps);
            out.extend(ps.into_iter().filter(|(_, t)| t == want).map(|(e, _)| e));
        }
        out
    }
    /// A mutable place of some data type, with indices free of effects when `pure_index`.
    fn any_mut_place(&mut self, pure_index: bool, d: u32) -> Option<(E, Ty)> {
        let vis: Vec<Var> = self
            .visible()
            .into_iter()
            .filter(|v| self.p.vars[*v].mutable && !self.frozen.contains(v) && !self.protected.contains(v))
            .collect();
        if vis.is_empty() {
            return None;
        }
        let v = *self.s.pick(&vis);
        let t = self.p.vars[v].ty.clone();
        let mut ps = vec![];
        self.paths(E::Var(v), &t, 3, &mut ps);
        let (e, t) = ps[self.s.idx(ps.len())].clone();
        let saved = self.pure_;
        self.pure_ |= pure_index;
        let n = self.frozen.len();
        self.frozen.push(v);
        let e = self.fill(e, d);
        self.frozen.truncate(n);
        self.pure_ = saved;
        Some((e, t))
    }

    // ---- expressions ----
    fn string(&mut self) -> String {
        const S: [&str; 12] = ["", "a", "ab", "hello", "é", "日本", "x y", "\"q\"", "a\\b", "line\n", "🎉", "{ }"];
        S[self.s.idx(S.len())].replace('{', "(").replace('}', ")")
    }
    fn lit(&mut self, t: &Ty) -> E {
        match t {
            Ty::Unit => E::Lit(Lit::Unit),
            Ty::Bool => E::Lit(Lit::Bool(self.s.flip())),
            Ty::Int => {
                let i = if self.s.chance(1, 12) { self.s.int() } else { self.s.range(0, 9) };
                E::Lit(Lit::Int(i))
            }
            Ty::Float => E::Lit(Lit::Float(self.s.range(-8, 8) as f64 / 4.0)),
            Ty::Str => E::Lit(Lit::Str(self.string())),
            Ty::Tracked => {
                let k = self.s.range(0, 9);
                E::Call(Callee::Std("host::make"), vec![E::Lit(Lit::Int(k))])
            }
            Ty::Tup(v) => E::Tup(v.iter().map(|t| self.lit(t)).collect()),
            Ty::Rec(v) => {
                let mut fs: Vec<(String, E)> = v.iter().map(|(n, t)| (n.clone(), self.lit(t))).collect();
                if self.s.chance(1, 3) {
                    fs.reverse();
                }
                E::Rec(fs)
            }
            Ty::Arr(t) => {
                let n = self.s.len(0, 4);
                if n == 0 {
                    return E::EmptyArr(Ty::Arr(t.clone()));
                }
                E::Arr((0..n).map(|_| self.lit(t)).collect())
            }
            Ty::Opt(x) => {
                if self.s.flip() {
                    E::None(t.clone())
                } else {
                    let e = self.lit(x);
                    E::Typed(Box::new(E::Some(Box::new(e))), t.clone())
                }
            }
            Ty::Adt(a) => {
                let i = self.s.idx(self.p.adts[*a].variants.len());
                self.ctor(*a, i, 0)
            }
            Ty::Fun(..) => self.lambda(t, 0),
        }
    }
    fn ctor(&mut self, a: usize, i: usize, d: u32) -> E {
        match self.p.adts[a].variants[i].1.clone() {
            Payload::Unit => E::Ctor(a, i, vec![]),
            Payload::Tup(v) => E::Ctor(a, i, v.iter().map(|t| self.expr(t, d)).collect()),
            Payload::Rec(v) => {
                let mut fs: Vec<(String, Ty)> = v;
                if self.s.chance(1, 2) {
                    fs.reverse();
                }
                E::CtorRec(a, i, fs.into_iter().map(|(n, t)| {
                    let e = self.expr(&t, d);
                    (n, e)
                }).collect())
            }
        }
    }
    fn leaf(&mut self, t: &Ty) -> E {
        let ps = self.places(t, false);
        if !ps.is_empty() && self.s.chance(7, 10) {
            let e = ps[self.s.idx(ps.len())].clone();
            let saved = self.pure_;
            self.pure_ = true;
            let e = self.fill(e, 0);
            self.pure_ = saved;
            return e;
        }
        self.lit(t)
    }
    /// A lambda of the given function type.
    fn lambda(&mut self, t: &Ty, d: u32) -> E {
        let Ty::Fun(params, ret) = t else { unreachable!() };
        let saved = self.save();
        let loops = std::mem::take(&mut self.loops);
        let ret_saved = self.ret.replace((**ret).clone());
        self.lambda_depth += 1;
        let mut ps = vec![];
        for (m, t) in params {
            let v = self.declare(t.clone(), *m);
            // Two parameters of one name would be rejected.
            if ps.iter().any(|(o, _)| self.p.vars[*o as usize].name == self.p.vars[v].name) {
                self.p.vars[v].name = format!("p{v}");
            }
            self.scope.push(v);
            ps.push((v, *m));
        }
        let body = if self.left > 0 && self.s.chance(1, 4) && d > 0 { self.block(ret, d - 1) } else { self.expr(ret, d) };
        // A parameter that must be mutable is one that the body assigns.
        let mut stmts = vec![];
        for (v, m) in &ps {
            if *m {
                let t = self.p.vars[*v].ty.clone();
                let e = self.lit(&t);
                stmts.push(Stmt::Expr(E::Assign(Box::new(E::Var(*v)), Box::new(e))));
            }
        }
        // Known finding: a pattern binding that no block of the closure's body encloses is left behind.
        let bare = !matches!(body, E::Block(..)) && format!("{body:?}").contains("Match");
        let body = if stmts.is_empty() && !bare { body } else { E::Block(stmts, Some(Box::new(body))) };
        self.lambda_depth -= 1;
        self.ret = ret_saved;
        self.loops = loops;
        self.restore(saved);
        self.seen("closure");
        E::Lambda(Rc::new(Lambda { params: ps, body }))
    }
    fn diverge(&mut self, d: u32) -> Option<E> {
        let in_loop = !self.loops.is_empty();
        match self.s.weighted(&[
            if self.ret.is_some() { self.f.early * 2 } else { 0 },
            if in_loop { self.f.early * 2 + 1 } else { 0 },
            if in_loop { self.f.early } else { 0 },
            self.f.failing,
        ]) {
            0 if self.ret.is_some() && self.f.early > 0 => {
                let t = self.ret.clone().unwrap();
                let e = self.expr(&t, d.saturating_sub(1));
                self.seen("return");
                Some(E::Return(Box::new(e)))
            }
            1 if in_loop => {
                let k = if self.s.chance(2, 3) { self.loops.len() - 1 } else { self.s.idx(self.loops.len()) };
                let inner = k == self.loops.len() - 1;
                let (label, brk) = (self.loops[k].label, self.loops[k].brk.clone());
                if !inner && label.is_none() {
                    return None;
                }
                let l = if inner && (label.is_none() || self.s.flip()) { None } else { label };
                let v = match brk {
                    None => None,
                    Some(Ty::Unit) if self.s.flip() => None,
                    Some(t) => Some(Box::new(self.expr(&t, d.saturating_sub(1)))),
                };
                self.seen("break");
                Some(E::Break(l, v))
            }
            2 if in_loop => {
                let k = if self.s.chance(2, 3) { self.loops.len() - 1 } else { self.s.idx(self.loops.len()) };
                let inner = k == self.loops.len() - 1;
                let label = self.loops[k].label;
                if !inner && label.is_none() {
                    return None;
                }
                self.seen("continue");
                Some(E::Continue(if inner && self.s.flip() { None } else { label }))
            }
            3 if self.f.failing > 0 => {
                self.seen("panic");
                Some(E::Call(Callee::Std("panic"), vec![E::Lit(Lit::Str("stop".into()))]))
            }
            _ => None,
        }
    }
    fn cond(&mut self, d: u32) -> E {
        self.expr(&Ty::Bool, d.min(2))
    }
    fn wrap(&mut self, e: E) -> E {
        if self.f.redundant > 0 && self.s.chance(self.f.redundant as u64, 40) {
            if self.s.flip() { E::Paren(Box::new(e)) } else { E::Block(vec![], Some(Box::new(e))) }
        } else {
            e
        }
    }
    pub fn expr(&mut self, t: &Ty, d: u32) -> E {
        self.left -= 1;
        if d == 0 || self.left <= 0 {
            return if let Ty::Fun(..) = t { self.fun_value(t, 0) } else { self.leaf(t) };
        }
        if self.pure_ {
            return match t {
                Ty::Int if self.s.chance(1, 3) => {
                    let op = [Op::Add, Op::Sub, Op::Mul][self.s.idx(3)];
                    let a = self.expr(t, d - 1);
                    let b = self.expr(t, d - 1);
                    E::Bin(op, Box::new(a), Box::new(b))
                }
                _ => self.leaf(t),
            };
        }
        let e = self.expr_inner(t, d);
        self.wrap(e)
    }
    fn fun_value(&mut self, t: &Ty, d: u32) -> E {
        let ps = self.places(t, false);
        // Calls through a place inside an array are exercised elsewhere; here plain names and fields.
        let ps: Vec<E> = ps.into_iter().filter(|e| !Self::indexed(e)).collect();
        if !ps.is_empty() && self.s.flip() {
            return ps[self.s.idx(ps.len())].clone();
        }
        let Ty::Fun(params, ret) = t else { unreachable!() };
        let named: Vec<usize> = (0..self.p.funs.len())
            .filter(|i| {
                let f = &self.p.funs[*i];
                f.annotate
                    && f.method.is_none()
                    && f.ret == **ret
                    && self.current.is_none_or(|c| c.0 != *i)
                    && f.params.len() == params.len()
                    && f.params.iter().zip(params).all(|(a, b)| self.p.vars[a.0].ty == b.1 && (a.1 == Pass::Ref) == b.0)
            })
            .collect();
        if !named.is_empty() && self.s.flip() {
            return E::FnRef(Callee::Fn(*self.s.pick(&named)));
        }
        self.lambda(t, d)
    }
    fn expr_inner(&mut self, t: &Ty, d: u32) -> E {
        let f = self.f.clone();
        if let Ty::Fun(..) = t {
            return self.fun_value(t, d);
        }
        let calls = self.callable(t);
        let k = self.s.weighted(&[
            8,
            8,
            3,
            2,
            2,
            f.loops,
            if calls.is_empty() { 0 } else { 5 },
            f.closures * 2,
            f.generics * 2,
            f.opts + f.adts,
            f.closures,
            1,
            if f.early + f.failing > 0 { 1 } else { 0 },
        ]);
        match k {
            0 => self.leaf(t),
            1 => self.specific(t, d),
            2 => {
                let c = self.cond(d - 1);
                let (a, b) = self.branches(t, d);
                E::If(Box::new(c), Box::new(a), Some(Box::new(b)))
            }
            3 => self.block(t, d - 1),
            4 => self.match_scalar(t, d),
            5 => self.loop_value(t, d),
            6 => {
                let i = *self.s.pick(&calls);
                self.call_fun(i, d)
            }
            7 => {
                // An immediately applied or stored closure.
                let n = self.s.idx(3);
                let params: Vec<(bool, Ty)> = (0..n).map(|_| (false, self.ty(1))).collect();
                let ft = Ty::Fun(params.clone(), Box::new(t.clone()));
                let callee = self.fun_value(&ft, d - 1);
                let args: Vec<E> = params.iter().map(|(_, t)| self.expr(t, d - 1)).collect();
                self.apply(callee, &ft, args)
            }
            8 => self.generic_call(t, d),
            9 => self.match_sum(t, d),
            10 => self.call_value(t, d).unwrap_or_else(|| self.leaf(t)),
            11 => {
                let e = self.expr(t, d - 1);
                if matches!(t, Ty::Tracked) { e } else { E::Typed(Box::new(e), t.clone()) }
            }
            _ => match self.diverge(d - 1) {
                Some(e) => {
                    let c = self.cond(d - 1);
                    let v = self.expr(t, d - 1);
                    E::If(Box::new(c), Box::new(e), Some(Box::new(v)))
                }
                None => self.leaf(t),
            },
        }
    }
    /// Applies a function value directly; literals of closures need their types from somewhere.
    fn apply(&mut self, callee: E, ft: &Ty, args: Vec<E>) -> E {
        let has_tracked = format!("{ft:?}").contains("Tracked");
        let callee = match callee {
            E::Lambda(_) | E::FnRef(_) if !has_tracked => E::Typed(Box::new(callee), ft.clone()),
            e => e,
        };
        E::Call(Callee::Val(Box::new(callee)), args)
    }
    fn branches(&mut self, t: &Ty, d: u32) -> (E, E) {
        let a = self.expr(t, d - 1);
        let b = self.expr(t, d - 1);
        if self.f.early + self.f.failing > 0
            && self.s.chance(1, 8)
            && let Some(x) = self.diverge(d - 1)
        {
            return if self.s.flip() { (x, b) } else { (a, x) };
        }
        (a, b)
    }
    fn call_value(&mut self, t: &Ty, d: u32) -> Option<E> {
        let c: Vec<(E, Ty)> = self
            .visible()
            .into_iter()
            .filter_map(|v| match &self.p.vars[v].ty {
                ft @ Ty::Fun(_, r) if **r == *t => Some((E::Var(v), ft.clone())),
                _ => None,
            })
            .collect();
        if c.is_empty() {
            return None;
        }
        let (e, ft) = c[self.s.idx(c.len())].clone();
        let Ty::Fun(params, _) = &ft else { unreachable!() };
        let args = self.args(params, d)?;
        Some(E::Call(Callee::Val(Box::new(e)), args))
    }
    /// Arguments for parameters; mutable ones get distinct frozen roots.
    fn args(&mut self, params: &[(bool, Ty)], d: u32) -> Option<Vec<E>> {
        let n = self.frozen.len();
        let mut out = vec![];
        for (m, t) in params {
            if *m {
                let ps: Vec<E> = self.places(t, true);
                if ps.is_empty() {
                    self.frozen.truncate(n);
                    return None;
                }
                let e = ps[self.s.idx(ps.len())].clone();
                let root = Self::root(&e).unwrap();
                self.frozen.push(root);
                let saved = self.pure_;
                self.pure_ = true;
                let e = self.fill(e, 0);
                self.pure_ = saved;
                self.seen("mutable argument");
                out.push(e);
            } else {
                out.push(self.expr(t, d.saturating_sub(1)));
            }
        }
        let tys: Vec<Option<Ty>> = params.iter().map(|(m, t)| (!m).then(|| t.clone())).collect();
        self.disturb(&mut out, &tys, d);
        self.frozen.truncate(n);
        Some(out)
    }
    /// Operands of which an earlier one reads a variable that a later one writes.
    fn disturb(&mut self, out: &mut [E], tys: &[Option<Ty>], d: u32) {
        if self.pure_ || out.len() < 2 || !self.s.chance(1, 3) {
            return;
        }
        let i = self.s.idx(out.len() - 1);
        let j = i + 1 + self.s.idx(out.len() - 1 - i);
        let (Some(t), Some(_)) = (&tys[i], &tys[j]) else { return };
        if matches!(t, Ty::Fun(..)) {
            return;
        }
        // Known finding: a field named before the type is known is not read in time.
        fn named(e: &E) -> bool {
            matches!(e, E::Field(b, f) if matches!(f, Fld::Name(_)) || named(b))
        }
        let ps: Vec<E> = self.places(t, true).into_iter().filter(|e| !Self::indexed(e) && !named(e)).collect();
        if ps.is_empty() {
            return;
        }
        let place = ps[self.s.idx(ps.len())].clone();
        let value = if d > 1 && self.s.flip() { self.expr(t, 1) } else { self.lit(t) };
        out[i] = place.clone();
        let old = std::mem::replace(&mut out[j], E::Lit(Lit::Unit));
        out[j] = E::Block(vec![Stmt::Expr(E::Assign(Box::new(place), Box::new(value)))], Some(Box::new(old)));
        self.seen("operand changed by a later operand");
    }
    fn callable(&self, t: &Ty) -> Vec<usize> {
        (0..self.p.funs.len())
            .filter(|i| {
                let f = &self.p.funs[*i];
                f.ret == *t
                    && f.annotate
                    && !(self.current.is_some_and(|c| c.0 == *i))
            })
            .collect()
    }
    fn call_fun(&mut self, i: usize, d: u32) -> E {
        let f = &self.p.funs[i];
        let params: Vec<(bool, Ty)> =
            f.params.iter().map(|(v, p)| (*p == Pass::Ref, self.p.vars[*v].ty.clone())).collect();
        let ret = f.ret.clone();
        let callee = match &f.method {
            Some((t, _)) => Callee::Method(*t, i),
            None => Callee::Fn(i),
        };
        // A recursion guard gets a small number.
        let guarded = f.params.first().is_some_and(|p| self.protected.contains(&p.0));
        let Some(mut args) = self.args(&params, d) else { return self.leaf(&ret) };
        if guarded {
            args[0] = E::Lit(Lit::Int(self.s.range(0, 4)));
        }
        self.seen("call");
        if !args.is_empty() && !params[0].0 && self.s.chance(1, 8) {
            let first = args.remove(0);
            return E::Pipe(Box::new(first), callee, args);
        }
        E::Call(callee, args)
    }
    fn generic(&mut self, name: &'static str) -> usize {
        let k = GENERICS.iter().position(|n| *n == name).unwrap();
        if let Some(i) = self.generics[k] {
            return i;
        }
        let mut v = |n: &str| self.p.new_var(n, Ty::Unit, true);
        let var = |v: Var| Box::new(E::Var(v));
        let (params, body): (Vec<(Var, Pass)>, E) = match name {
            "idg" => {
                let x = v("x");
                (vec![(x, Pass::Val)], E::Var(x))
            }
            "fstg" => {
                let x = v("x");
                (vec![(x, Pass::Val)], E::Field(var(x), Fld::Pos(0)))
            }
            "swpg" => {
                let x = v("x");
                (
                    vec![(x, Pass::Val)],
                    E::Tup(vec![E::Field(var(x), Fld::Pos(1)), E::Field(var(x), Fld::Pos(0))]),
                )
            }
            "appg" => {
                let (f, x) = (v("f"), v("x"));
                (vec![(f, Pass::Val), (x, Pass::Val)], E::Call(Callee::Val(var(f)), vec![E::Var(x)]))
            }
            "twiceg" => {
                let (f, x) = (v("f"), v("x"));
                let inner = E::Call(Callee::Val(var(f)), vec![E::Var(x)]);
                (vec![(f, Pass::Val), (x, Pass::Val)], E::Call(Callee::Val(var(f)), vec![inner]))
            }
            "ifg" => {
                let (c, a, b) = (v("c"), v("a"), v("b"));
                (
                    vec![(c, Pass::Val), (a, Pass::Val), (b, Pass::Val)],
                    E::If(var(c), var(a), Some(var(b))),
                )
            }
            "eqg" => {
                let (a, b) = (v("a"), v("b"));
                (vec![(a, Pass::Val), (b, Pass::Val)], E::Bin(Op::Eq, var(a), var(b)))
            }
            "setg" => {
                let (a, b) = (v("a"), v("b"));
                (vec![(a, Pass::Ref), (b, Pass::Val)], E::Block(vec![Stmt::Expr(E::Assign(var(a), var(b)))], None))
            }
            _ => {
                let (a, b) = (v("a"), v("b"));
                (vec![(a, Pass::Val), (b, Pass::Val)], E::Bin(Op::Add, var(a), var(b)))
            }
        };
        let inline_never = self.s.chance(1, 3);
        self.p.funs.push(Func { name: name.into(), params, ret: Ty::Unit, body, annotate: false, inline_never, method: None });
        let i = self.p.funs.len() - 1;
        self.generics[k] = Some(i);
        // The function being generated will be appended after this one.
        if let Some(c) = &mut self.current {
            c.0 = self.p.funs.len();
        }
        i
    }
    fn generic_call(&mut self, t: &Ty, d: u32) -> E {
        self.seen("generic call");
        let call = |g: &mut Self, n: &'static str, args: Vec<E>| {
            let i = g.generic(n);
            E::Call(Callee::Fn(i), args)
        };
        match (self.s.below(6), t) {
            (0, t) => {
                let e = self.expr(t, d - 1);
                call(self, "idg", vec![e])
            }
            (1, t) => {
                let o = self.ty(1);
                let e = self.expr(&Ty::Tup(vec![t.clone(), o]), d - 1);
                call(self, "fstg", vec![e])
            }
            (2, Ty::Tup(v)) if v.len() == 2 => {
                let e = self.expr(&Ty::Tup(vec![v[1].clone(), v[0].clone()]), d - 1);
                call(self, "swpg", vec![e])
            }
            (2, Ty::Bool) => {
                let o = self.ty(1);
                let (a, b) = (self.expr(&o, d - 1), self.expr(&o, d - 1));
                call(self, "eqg", vec![a, b])
            }
            (2, Ty::Int | Ty::Float) => {
                let (a, b) = (self.expr(t, d - 1), self.expr(t, d - 1));
                call(self, "addg", vec![a, b])
            }
            (3, t) => {
                let a = self.ty(1);
                let x = self.expr(&a, d - 1);
                let ft = Ty::Fun(vec![(false, a.clone())], Box::new(t.clone()));
                let f = self.fun_value(&ft, d - 1);
                let f = if format!("{ft:?}").contains("Tracked") { f } else { E::Typed(Box::new(f), ft) };
                call(self, "appg", vec![f, x])
            }
            (4, t) => {
                let x = self.expr(t, d - 1);
                let ft = Ty::Fun(vec![(false, t.clone())], Box::new(t.clone()));
                let f = self.fun_value(&ft, d - 1);
                let f = if format!("{ft:?}").contains("Tracked") { f } else { E::Typed(Box::new(f), ft) };
                call(self, "twiceg", vec![f, x])
            }
            (_, t) => {
                let c = self.cond(d - 1);
                let (a, b) = (self.expr(t, d - 1), self.expr(t, d - 1));
                call(self, "ifg", vec![c, a, b])
            }
        }
    }
    fn loop_value(&mut self, t: &Ty, d: u32) -> E {
        self.seen("loop value");
        let saved = self.save();
        let k = self.p.new_var("k_", Ty::Int, true);
        let label = if self.s.flip() {
            self.labels += 1;
            Some(self.labels)
        } else {
            None
        };
        let bound = self.s.range(0, 4);
        // The counter's own name is unique, so that nothing shadows it.
        self.p.vars[k].name = format!("k{k}");
        self.scope.push(k);
        self.protected.push(k);
        self.loops.push(LoopCtx { label, brk: Some(t.clone()) });
        let out = self.expr(t, d - 1);
        let mut stmts = vec![
            Stmt::Expr(E::AssignOp(Op::Add, Box::new(E::Var(k)), Box::new(E::Lit(Lit::Int(1))))),
            Stmt::Expr(E::If(
                Box::new(E::Bin(Op::Gt, Box::new(E::Var(k)), Box::new(E::Lit(Lit::Int(bound))))),
                Box::new(E::Break(None, Some(Box::new(out)))),
                None,
            )),
        ];
        let n = self.s.len(0, 2);
        for _ in 0..n {
            let st = self.stmt(d - 1);
            stmts.push(st);
        }
        self.loops.pop();
        self.restore(saved);
        let body = E::Block(stmts, None);
        E::Block(
            vec![Stmt::Let(Pat::Var(k), None, E::Lit(Lit::Int(0)))],
            Some(Box::new(E::Loop(label, Box::new(body)))),
        )
    }
    fn scalar_pats(&mut self, t: &Ty) -> (Vec<MPat>, bool) {
        match t {
            Ty::Bool => {
                let first = self.s.flip();
                let mut v = vec![MPat::Lit(Lit::Bool(first))];
                let full = self.s.flip();
                if full {
                    v.push(MPat::Lit(Lit::Bool(!first)));
                }
                (v, full)
            }
            Ty::Int => {
                let n = self.s.len(1, 3);
                let mut vals: Vec<i64> = (0..n).map(|_| self.s.range(-1, 5)).collect();
                vals.dedup();
                let mut u: Vec<i64> = vec![];
                for v in vals {
                    if !u.contains(&v) {
                        u.push(v);
                    }
                }
                (u.into_iter().map(|i| MPat::Lit(Lit::Int(i))).collect(), false)
            }
            Ty::Str => {
                let a = self.string();
                let b = self.string();
                let mut v = vec![MPat::Lit(Lit::Str(a.clone()))];
                if a != b {
                    v.push(MPat::Lit(Lit::Str(b)));
                }
                (v, false)
            }
            _ => {
                // Pairs of booleans.
                let all = [(false, false), (false, true), (true, false), (true, true)];
                let n = 1 + self.s.idx(4);
                let rot = self.s.idx(4);
                let v = (0..n)
                    .map(|i| {
                        let (a, b) = all[(i + rot) % 4];
                        MPat::Tup(vec![MPat::Lit(Lit::Bool(a)), MPat::Lit(Lit::Bool(b))])
                    })
                    .collect();
                (v, n == 4)
            }
        }
    }
    fn match_scalar(&mut self, t: &Ty, d: u32) -> E {
        self.seen("match");
        let st = match self.s.weighted(&[3, 3, self.f.strings, 2]) {
            0 => Ty::Int,
            1 => Ty::Bool,
            2 => Ty::Str,
            _ => Ty::Tup(vec![Ty::Bool, Ty::Bool]),
        };
        let s = self.expr(&st, d - 1);
        let (pats, full) = self.scalar_pats(&st);
        let arms: Vec<(MPat, E)> = pats
            .into_iter()
            .map(|p| {
                let e = self.expr(t, d - 1);
                (p, e)
            })
            .collect();
        let def = if full { None } else { Some(Box::new(self.expr(t, d - 1))) };
        E::Match(Box::new(s), arms, def)
    }
    fn match_sum(&mut self, t: &Ty, d: u32) -> E {
        self.seen("match on variants");
        let enums: Vec<usize> = (0..self.p.adts.len()).filter(|i| !self.p.adts[*i].is_struct).collect();
        let st = if !enums.is_empty() && (self.f.opts == 0 || self.s.flip()) {
            Ty::Adt(*self.s.pick(&enums))
        } else {
            let x = self.ty(1);
            Ty::opt(x)
        };
        let s = self.expr(&st, d - 1);
        let saved_all = self.save();
        // While the arms run, the matched place is left alone (see known finding on match bindings).
        if let Some(r) = Self::root(&s) {
            self.frozen.push(r);
        }
        let mut arms = vec![];
        match &st {
            Ty::Opt(x) => {
                let saved = self.save();
                let v = self.declare((**x).clone(), false);
                self.scope.push(v);
                let a = self.expr(t, d - 1);
                self.restore(saved);
                let b = self.expr(t, d - 1);
                arms.push((MPat::Some(v), a));
                arms.push((MPat::None, b));
            }
            Ty::Adt(a) => {
                let vs = self.p.adts[*a].variants.clone();
                for (i, (_, p)) in vs.iter().enumerate() {
                    let saved = self.save();
                    let q = self.s.chance(2, 3);
                    let pat = match p {
                        Payload::Unit => MPat::Tag(*a, i, q, vec![]),
                        Payload::Tup(ts) => {
                            let mut vars: Vec<Var> = vec![];
                            for t in ts {
                                let v = self.declare(t.clone(), false);
                                if vars.iter().any(|o| self.p.vars[*o].name == self.p.vars[v].name) {
                                    self.p.vars[v].name = format!("m{v}");
                                }
                                vars.push(v);
                            }
                            self.scope.extend(vars.iter());
                            MPat::Tag(*a, i, q, vars)
                        }
                        Payload::Rec(ts) => {
                            let mut fs = vec![];
                            let rest = self.s.chance(1, 3);
                            for (k, (n, t)) in ts.iter().enumerate() {
                                if rest && k > 0 && self.s.flip() {
                                    continue;
                                }
                                let v = self.p.new_var(n, t.clone(), false);
                                self.scope.push(v);
                                fs.push((n.clone(), v));
                            }
                            if self.s.flip() {
                                fs.reverse();
                            }
                            let rest = fs.len() < ts.len() || (rest && self.s.flip());
                            MPat::TagRec(*a, i, q, fs, rest)
                        }
                    };
                    let e = self.expr(t, d - 1);
                    self.restore(saved);
                    arms.push((pat, e));
                }
            }
            _ => unreachable!(),
        }
        if self.s.chance(1, 4) {
            arms.reverse();
        }
        let mut def = None;
        if arms.len() > 1 && self.s.chance(1, 4) {
            let (_, e) = arms.pop().unwrap();
            // The arm's expression may mention the pattern's bindings: generate another.
            drop(e);
            def = Some(Box::new(self.expr(t, d - 1)));
        }
        self.restore(saved_all);
        E::Match(Box::new(s), arms, def)
    }
    fn specific(&mut self, t: &Ty, d: u32) -> E {
        let f = self.f.clone();
        let std = |n: &'static str, args: Vec<E>| E::Call(Callee::Std(n), args);
        match t {
            Ty::Unit => match self.stmt_expr(d) {
                Some(e) => E::Block(vec![Stmt::Expr(e)], None),
                None => E::Lit(Lit::Unit),
            },
            Ty::Bool => match self.s.weighted(&[4, 3, 3, f.arrays, 3]) {
                0 => {
                    let op = [Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne][self.s.idx(6)];
                    let t = match self.s.weighted(&[6, f.floats, f.strings]) {
                        0 => Ty::Int,
                        1 => Ty::Float,
                        _ => Ty::Str,
                    };
                    self.bin(op, &t, d)
                }
                1 => {
                    let op = if self.s.flip() { Op::And } else { Op::Or };
                    self.bin(op, &Ty::Bool, d)
                }
                2 => {
                    let e = self.expr(&Ty::Bool, d - 1);
                    E::Not(Box::new(e))
                }
                3 if f.closures > 0 => {
                    let t = self.ty(0);
                    let a = self.expr(&Ty::arr(t.clone()), d - 1);
                    let l = self.lambda(&Ty::Fun(vec![(false, t)], Box::new(Ty::Bool)), d - 1);
                    std(if self.s.flip() { "any" } else { "all" }, vec![a, l])
                }
                _ => {
                    let t = self.ty(1);
                    if self.comparable(&t) {
                        let op = if self.s.flip() { Op::Eq } else { Op::Ne };
                        self.bin(op, &t, d)
                    } else {
                        self.leaf(&Ty::Bool)
                    }
                }
            },
            Ty::Int => match self.s.weighted(&[10, 2, 1 + f.failing, 2, f.arrays * 2, f.strings, f.host * 3, f.floats, f.arrays * f.closures, f.tracked]) {
                0 => {
                    let op = [Op::Add, Op::Sub, Op::Mul][self.s.idx(3)];
                    self.bin(op, &Ty::Int, d)
                }
                1 => {
                    let e = self.expr(&Ty::Int, d - 1);
                    E::Neg(Box::new(e))
                }
                2 => {
                    let n = ["idiv", "rem", "mod", "idiv_euclid"][self.s.idx(4)];
                    let a = self.expr(&Ty::Int, d - 1);
                    let b = if self.s.chance(1, 3) {
                        self.expr(&Ty::Int, d - 1)
                    } else {
                        E::Lit(Lit::Int(self.s.range(1, 5)))
                    };
                    std(n, vec![a, b])
                }
                3 => {
                    let n = ["min", "max"][self.s.idx(2)];
                    let (a, b) = (self.expr(t, d - 1), self.expr(t, d - 1));
                    if self.s.chance(1, 3) { std("abs", vec![a]) } else { std(n, vec![a, b]) }
                }
                4 => {
                    let t = self.ty(0);
                    let a = self.expr(&Ty::arr(t), d - 1);
                    std("len", vec![a])
                }
                5 => {
                    let a = self.expr(&Ty::Str, d - 1);
                    std("len", vec![a])
                }
                6 => self.host_int(d),
                7 => {
                    let a = self.expr(&Ty::Float, d - 1);
                    E::Cast(Box::new(a), Ty::Int)
                }
                8 => {
                    let t = self.ty(0);
                    let a = self.expr(&Ty::arr(t.clone()), d - 1);
                    let z = self.expr(&Ty::Int, d - 1);
                    let l = self.lambda(&Ty::Fun(vec![(false, Ty::Int), (false, t)], Box::new(Ty::Int)), d - 1);
                    std("fold", vec![a, z, l])
                }
                _ => {
                    let a = self.expr(&Ty::Tracked, d - 1);
                    std("host::id", vec![a])
                }
            },
            Ty::Float => match self.s.below(3) {
                0 => {
                    let a = self.expr(&Ty::Int, d - 1);
                    // Large integers would leave the range of exact arithmetic.
                    let a = std("rem", vec![a, E::Lit(Lit::Int(100))]);
                    E::Cast(Box::new(a), Ty::Float)
                }
                1 => {
                    let a = self.expr(t, d - 1);
                    let k = [1.0, 2.0, 4.0][self.s.idx(3)];
                    E::Bin(Op::Div, Box::new(a), Box::new(E::Lit(Lit::Float(k))))
                }
                _ => {
                    let op = [Op::Add, Op::Sub, Op::Mul][self.s.idx(3)];
                    self.bin(op, t, d)
                }
            },
            Ty::Str => match self.s.below(3) {
                0 => {
                    let (a, b) = (self.expr(t, d - 1), self.expr(t, d - 1));
                    std("concat", vec![a, b])
                }
                1 => {
                    let s = [Ty::Int, Ty::Bool, Ty::Str][self.s.idx(3)].clone();
                    let a = self.expr(&s, d - 1);
                    std("to_string", vec![a])
                }
                _ => {
                    let vis: Vec<Var> = self
                        .visible()
                        .into_iter()
                        .filter(|v| matches!(self.p.vars[*v].ty, Ty::Int | Ty::Bool | Ty::Str) && !self.p.vars[*v].name.starts_with("r#"))
                        .collect();
                    let mut ps = vec![];
                    let n = self.s.len(1, 3);
                    for i in 0..n {
                        if i % 2 == 1 || vis.is_empty() {
                            let t = self.string();
                            ps.push(Piece::Text(t));
                        } else {
                            ps.push(Piece::Var(*self.s.pick(&vis)));
                        }
                    }
                    E::FStr(ps)
                }
            },
            Ty::Tup(v) => {
                let mut out: Vec<E> = v.iter().map(|t| self.expr(t, d - 1)).collect();
                let tys: Vec<Option<Ty>> = v.iter().cloned().map(Some).collect();
                self.disturb(&mut out, &tys, d);
                E::Tup(out)
            }
            Ty::Rec(v) => {
                let mut fs = v.clone();
                if self.s.flip() {
                    fs.reverse();
                }
                E::Rec(fs.into_iter().map(|(n, t)| {
                    let e = self.expr(&t, d - 1);
                    (n, e)
                }).collect())
            }
            // Known finding: inside a closure the failure of a callback given to map or filter is not seen.
            Ty::Arr(x) => match self.s.weighted(&[
                6,
                1,
                if self.lambda_depth > 0 { 0 } else { f.closures },
                if self.lambda_depth > 0 { 0 } else { f.closures },
                1,
                1,
            ]) {
                0 => {
                    let n = self.s.len(0, 4);
                    if n == 0 {
                        E::EmptyArr(t.clone())
                    } else {
                        let mut out: Vec<E> = (0..n).map(|_| self.expr(x, d - 1)).collect();
                        let tys: Vec<Option<Ty>> = out.iter().map(|_| Some((**x).clone())).collect();
                        self.disturb(&mut out, &tys, d);
                        E::Arr(out)
                    }
                }
                1 => {
                    let a = self.expr(t, d - 1);
                    let b = self.expr(t, d - 1);
                    std("concat", vec![a, b])
                }
                2 => {
                    let s = self.ty(0);
                    let a = self.expr(&Ty::arr(s.clone()), d - 1);
                    let l = self.lambda(&Ty::Fun(vec![(false, s)], x.clone()), d - 1);
                    if self.s.flip() { std("map", vec![a, l]) } else { E::Pipe(Box::new(a), Callee::Std("map"), vec![l]) }
                }
                3 => {
                    let a = self.expr(t, d - 1);
                    let l = self.lambda(&Ty::Fun(vec![(false, (**x).clone())], Box::new(Ty::Bool)), d - 1);
                    std("filter", vec![a, l])
                }
                4 => {
                    let a = self.expr(t, d - 1);
                    std("reversed", vec![a])
                }
                _ => {
                    let a = self.expr(t, d - 1);
                    if matches!(**x, Ty::Int | Ty::Str) { std("sorted", vec![a]) } else { a }
                }
            },
            Ty::Opt(x) => match self.s.below(3) {
                0 => E::None(t.clone()),
                1 => {
                    let ps = self.places(&Ty::arr((**x).clone()), true);
                    let ps: Vec<E> = ps.into_iter().filter(|e| !Self::indexed(e)).collect();
                    if ps.is_empty() {
                        return self.lit(t);
                    }
                    let n = ["array_pop_back", "array_pop_front"][self.s.idx(2)];
                    let e = ps[self.s.idx(ps.len())].clone();
                    std(n, vec![e])
                }
                _ => {
                    let e = self.expr(x, d - 1);
                    E::Some(Box::new(e))
                }
            },
            Ty::Adt(a) => {
                let i = self.s.idx(self.p.adts[*a].variants.len());
                self.ctor(*a, i, d - 1)
            }
            Ty::Tracked => {
                let e = self.expr(&Ty::Int, d - 1);
                std("host::make", vec![e])
            }
            Ty::Fun(..) => unreachable!(),
        }
    }
    fn bin(&mut self, op: Op, t: &Ty, d: u32) -> E {
        let a = self.expr(t, d - 1);
        let b = self.expr(t, d - 1);
        let mut ab = [a, b];
        if !matches!(op, Op::And | Op::Or) {
            self.disturb(&mut ab, &[Some(t.clone()), Some(t.clone())], d);
        }
        let [a, b] = ab;
        E::Bin(op, Box::new(a), Box::new(b))
    }
    fn host_int(&mut self, d: u32) -> E {
        self.seen("host");
        let std = |n: &'static str, args: Vec<E>| E::Call(Callee::Std(n), args);
        let k = self.expr(&Ty::Int, d.min(1) - 1);
        match self.s.weighted(&[4, 3, 2, self.f.failing, self.f.failing, 1, 3]) {
            0 => std("host::get", vec![k]),
            1 => {
                let v = self.expr(&Ty::Int, d - 1);
                std("host::swap", vec![k, v])
            }
            2 => std("host::tick", vec![]),
            3 => std("host::check", vec![k]),
            4 => std("host::need", vec![k]),
            5 => std("host::twice", vec![k]),
            _ => E::PropGet("x"),
        }
    }
    fn host_unit(&mut self, d: u32) -> E {
        self.seen("host");
        let std = |n: &'static str, args: Vec<E>| E::Call(Callee::Std(n), args);
        match self.s.weighted(&[4, self.f.strings, 3, self.f.arrays]) {
            0 => {
                let k = E::Lit(Lit::Int(self.s.range(0, 3)));
                let v = self.expr(&Ty::Int, d.saturating_sub(1));
                std("host::put", vec![k, v])
            }
            1 => {
                let s = self.expr(&Ty::Str, d.saturating_sub(1));
                std("host::say", vec![s])
            }
            2 => {
                let v = self.expr(&Ty::Int, d.saturating_sub(1));
                E::PropSet("x", Box::new(v))
            }
            _ => {
                let v = self.expr(&Ty::arr(Ty::Int), d.saturating_sub(1));
                E::PropSet("a", Box::new(v))
            }
        }
    }

    // ---- statements ----
    fn block(&mut self, t: &Ty, d: u32) -> E {
        let saved = self.save();
        let n = self.s.len(0, 3);
        let mut stmts = vec![];
        for _ in 0..n {
            let s = self.stmt(d);
            stmts.push(s);
        }
        let last = if *t == Ty::Unit && self.s.flip() { None } else { Some(Box::new(self.expr(t, d))) };
        self.restore(saved);
        E::Block(stmts, last)
    }
    fn pattern(&mut self, t: &Ty, d: u32, mutable: bool, out: &mut Vec<Var>) -> Pat {
        if self.s.chance(1, 10) && d < 2 {
            return Pat::Wild;
        }
        let plain = |g: &mut Self, out: &mut Vec<Var>| {
            let m = mutable && g.s.flip(); let v = g.declare(t.clone(), m);
            if out.iter().any(|o| g.p.vars[*o].name == g.p.vars[v].name) {
                g.p.vars[v].name = format!("w{v}");
            }
            out.push(v);
            Pat::Var(v)
        };
        if d == 0 {
            return plain(self, out);
        }
        match t {
            Ty::Tup(ts) => Pat::Tup(ts.iter().map(|t| self.pattern(t, d - 1, mutable, out)).collect()),
            Ty::Rec(fs) => Pat::Rec(
                fs.iter().map(|(n, t)| {
                    let p = self.pattern(t, d - 1, mutable, out);
                    // `_` is for elements only.
                    let p = match p {
                        Pat::Wild => {
                            let v = self.p.new_var(&format!("u{}", self.p.vars.len()), t.clone(), false);
                            out.push(v);
                            Pat::Var(v)
                        }
                        p => p,
                    };
                    (n.clone(), p)
                }).collect(),
            ),
            Ty::Adt(a) if self.p.adts[*a].is_struct => match self.p.adts[*a].variants[0].1.clone() {
                Payload::Tup(ts) => Pat::StructTup(*a, ts.iter().map(|t| self.pattern(t, 0, mutable, out)).collect(), false),
                Payload::Rec(fs) => {
                    let rest = self.s.flip();
                    let keep = if rest { 1 } else { fs.len() };
                    Pat::StructRec(
                        *a,
                        fs.iter().take(keep).map(|(n, t)| {
                            let m = mutable && self.s.flip(); let v = self.declare(t.clone(), m);
                            if out.iter().any(|o| self.p.vars[*o].name == self.p.vars[v].name) {
                                self.p.vars[v].name = format!("w{v}");
                            }
                            out.push(v);
                            (n.clone(), Pat::Var(v))
                        }).collect(),
                        rest,
                    )
                }
                Payload::Unit => plain(self, out),
            },
            _ => plain(self, out),
        }
    }
    fn let_stmt(&mut self, d: u32) -> Stmt {
        let t = if self.f.closures > 0 && self.s.chance(self.f.closures as u64, 12) { self.fun_ty() } else { self.ty(2) };
        let e = self.expr(&t, d);
        let is_fun = matches!(t, Ty::Fun(..));
        let has_tracked = format!("{t:?}").contains("Tracked");
        let annotate = !has_tracked && (is_fun || self.s.chance(1, 2) || matches!(t, Ty::Opt(_)));
        let destructure = matches!(t, Ty::Tup(_) | Ty::Rec(_) | Ty::Adt(_)) && self.s.chance(1, 3);
        if destructure {
            let mut vars = vec![];
            let dp = 1 + self.s.idx(2) as u32;
            let p = self.pattern(&t, dp, true, &mut vars);
            if !matches!(p, Pat::Wild | Pat::Var(_)) {
                self.seen("destructuring");
                self.scope.extend(vars);
                return Stmt::Let(p, None, e);
            }
        }
        let mutable = self.s.chance(2, 3);
        let v = self.declare(t.clone(), mutable);
        self.scope.push(v);
        Stmt::Let(Pat::Var(v), if annotate { Some(t) } else { None }, e)
    }
    pub fn stmt(&mut self, d: u32) -> Stmt {
        self.left -= 1;
        if self.left <= 0 || self.s.chance(2, 5) {
            return self.let_stmt(if self.left <= 0 { 0 } else { d });
        }
        match self.stmt_expr(d) {
            Some(e) => Stmt::Expr(e),
            None => self.let_stmt(d),
        }
    }
    fn is_int_place(&mut self, want: &Ty) -> Option<E> {
        let ps = self.places(want, true);
        if ps.is_empty() { None } else { Some(ps[self.s.idx(ps.len())].clone()) }
    }
    fn pure_fill(&mut self, e: E) -> E {
        let saved = self.pure_;
        self.pure_ = true;
        let e = self.fill(e, 0);
        self.pure_ = saved;
        e
    }
    fn stmt_expr(&mut self, d: u32) -> Option<E> {
        if d == 0 || self.pure_ {
            return None;
        }
        let f = self.f.clone();
        let std = |n: &'static str, args: Vec<E>| E::Call(Callee::Std(n), args);
        match self.s.weighted(&[
            6,
            4,
            f.arrays * 2,
            f.strings,
            3,
            f.loops * 2,
            f.loops * 2,
            f.refs * 2,
            f.host * 3,
            if f.early + f.failing > 0 { 2 } else { 0 },
            f.generics * f.refs,
            f.loops * f.arrays,
            1,
        ]) {
            0 => {
                let (p, t) = self.any_mut_place(false, 1)?;
                let n = self.frozen.len();
                if Self::indexed(&p) {
                    // See known finding: the place is resolved before the right-hand side runs.
                    self.frozen.push(Self::root(&p).unwrap());
                }
                let v = self.expr(&t, d - 1);
                self.frozen.truncate(n);
                self.seen("assignment");
                Some(E::Assign(Box::new(p), Box::new(v)))
            }
            1 => {
                let t = if f.floats > 0 && self.s.chance(1, 4) { Ty::Float } else { Ty::Int };
                let p = self.is_int_place(&t)?;
                let root = Self::root(&p).unwrap();
                let n = self.frozen.len();
                self.frozen.push(root);
                let p = self.pure_fill(p);
                let op = [Op::Add, Op::Sub, Op::Mul][self.s.idx(3)];
                if !Self::indexed(&p) {
                    self.frozen.truncate(n);
                }
                let v = if t == Ty::Float { self.leaf(&t) } else { self.expr(&t, d - 1) };
                self.frozen.truncate(n);
                self.seen("compound assignment");
                Some(E::AssignOp(op, Box::new(p), Box::new(v)))
            }
            2 => {
                let vis: Vec<(E, Ty)> = {
                    let mut out = vec![];
                    for v in self.visible() {
                        let i = self.p.vars[v].clone();
                        if i.mutable && !self.frozen.contains(&v) && !self.protected.contains(&v) {
                            let mut ps = vec![];
                            self.paths(E::Var(v), &i.ty, 2, &mut ps);
                            out.extend(ps.into_iter().filter(|(_, t)| matches!(t, Ty::Arr(_))));
                        }
                    }
                    out
                };
                if vis.is_empty() {
                    return None;
                }
                let (p, t) = vis[self.s.idx(vis.len())].clone();
                let Ty::Arr(x) = t else { unreachable!() };
                let root = Self::root(&p).unwrap();
                let n = self.frozen.len();
                self.frozen.push(root);
                let p = self.pure_fill(p);
                let e = match self.s.below(4) {
                    0 => {
                        let v = self.expr(&x, d - 1);
                        std("array_append", vec![p, v])
                    }
                    1 => {
                        let v = self.expr(&x, d - 1);
                        std("array_prepend", vec![p, v])
                    }
                    2 => std("reverse", vec![p]),
                    _ if matches!(*x, Ty::Int | Ty::Str) => std("sort", vec![p]),
                    _ => {
                        let v = self.expr(&x, d - 1);
                        std("array_append", vec![p, v])
                    }
                };
                self.frozen.truncate(n);
                self.seen("array update");
                Some(e)
            }
            3 => {
                let p = self.is_int_place(&Ty::Str)?;
                let n = self.frozen.len();
                self.frozen.push(Self::root(&p).unwrap());
                let p = self.pure_fill(p);
                let v = self.expr(&Ty::Str, d - 1);
                self.frozen.truncate(n);
                self.seen("string push");
                Some(if self.s.flip() {
                    std("string_push_str", vec![p, v])
                } else {
                    let whole = std("concat", vec![p.clone(), v]);
                    E::Assign(Box::new(p), Box::new(whole))
                })
            }
            4 => {
                let c = self.cond(d - 1);
                let t = self.unit_block(d - 1);
                let e = if self.s.flip() { Some(Box::new(self.unit_block(d - 1))) } else { None };
                Some(E::If(Box::new(c), Box::new(t), e))
            }
            5 => Some(self.for_stmt(d)),
            6 => {
                let e = self.loop_value(&Ty::Unit, d);
                Some(e)
            }
            7 => {
                let c: Vec<usize> = (0..self.p.funs.len())
                    .filter(|i| {
                        let f = &self.p.funs[*i];
                        f.annotate && f.params.iter().any(|p| p.1 == Pass::Ref) && self.current.is_none_or(|c| c.0 != *i)
                    })
                    .collect();
                if c.is_empty() {
                    return None;
                }
                let i = *self.s.pick(&c);
                Some(self.call_fun(i, d))
            }
            8 => Some(self.host_unit(d)),
            9 => {
                let x = self.diverge(d - 1)?;
                let c = self.cond(d - 1);
                Some(E::If(Box::new(c), Box::new(E::Block(vec![Stmt::Expr(x)], None)), None))
            }
            10 => {
                let (p, t) = self.any_mut_place(true, 0)?;
                let n = self.frozen.len();
                self.frozen.push(Self::root(&p).unwrap());
                let v = self.expr(&t, d - 1);
                self.frozen.truncate(n);
                let i = self.generic("setg");
                Some(E::Call(Callee::Fn(i), vec![p, v]))
            }
            11 => self.array_loop(d),
            _ => {
                let t = self.ty(2);
                Some(self.expr(&t, d - 1))
            }
        }
    }
    fn unit_block(&mut self, d: u32) -> E {
        let saved = self.save();
        let n = self.s.len(0, 2);
        let mut stmts = vec![];
        for _ in 0..n {
            let s = self.stmt(d);
            stmts.push(s);
        }
        self.restore(saved);
        E::Block(stmts, None)
    }
    fn for_stmt(&mut self, d: u32) -> E {
        self.seen("for");
        let saved = self.save();
        let mut vars = vec![];
        let (pat, seq) = match self.s.weighted(&[4, self.f.arrays, self.f.arrays]) {
            0 => {
                let v = self.declare(Ty::Int, false);
                let a = if self.s.chance(1, 4) { self.expr(&Ty::Int, 0) } else { E::Lit(Lit::Int(self.s.range(0, 3))) };
                let b = E::Lit(Lit::Int(self.s.range(-1, 4)));
                // Bounds stay small: a variable bound is reduced.
                let a = match a {
                    E::Lit(Lit::Int(i)) if (-20..=20).contains(&i) => E::Lit(Lit::Int(i)),
                    a => E::Paren(Box::new(E::Call(Callee::Std("rem"), vec![a, E::Lit(Lit::Int(4))]))),
                };
                vars.push(v);
                self.protected.push(v);
                (Pat::Var(v), E::Range(Box::new(a), Box::new(b), self.s.flip()))
            }
            1 => {
                let t = self.ty(1);
                let seq = self.expr(&Ty::arr(t.clone()), d - 1);
                let dp = self.s.idx(2) as u32;
                let p = self.pattern(&t, dp, false, &mut vars);
                let p = match p {
                    Pat::Wild | Pat::StructTup(..) | Pat::StructRec(..) => {
                        vars.clear();
                        let v = self.declare(t, false);
                        vars.push(v);
                        Pat::Var(v)
                    }
                    p => p,
                };
                (p, seq)
            }
            _ => {
                let t = self.ty(1);
                let seq = self.expr(&Ty::arr(t.clone()), d - 1);
                let i = self.declare(Ty::Int, false);
                let v = self.declare(t, false);
                if self.p.vars[i].name == self.p.vars[v].name {
                    self.p.vars[v].name = format!("e{v}");
                }
                vars.extend([i, v]);
                (Pat::Tup(vec![Pat::Var(i), Pat::Var(v)]), E::Call(Callee::Std("enumerate"), vec![seq]))
            }
        };
        self.scope.extend(vars);
        self.loops.push(LoopCtx { label: None, brk: None });
        let body = self.unit_block(d - 1);
        self.loops.pop();
        self.restore(saved);
        E::For(pat, Box::new(seq), Box::new(body))
    }
    /// `for i in 0..len(a) { … a[i] … }`, the shape bounds-check elimination looks for.
    fn array_loop(&mut self, d: u32) -> Option<E> {
        let vis: Vec<Var> =
            self.visible().into_iter().filter(|v| matches!(self.p.vars[*v].ty, Ty::Arr(_))).collect();
        if vis.is_empty() {
            return None;
        }
        let a = *self.s.pick(&vis);
        self.seen("index loop");
        let saved = self.save();
        let i = self.p.new_var(&format!("i{}", self.p.vars.len()), Ty::Int, false);
        let len = E::Call(Callee::Std("len"), vec![E::Var(a)]);
        let lo = if self.s.chance(1, 5) { 1 } else { 0 };
        let seq = E::Range(Box::new(E::Lit(Lit::Int(lo))), Box::new(E::Paren(Box::new(len))), self.f.failing > 0 && self.s.chance(1, 8));
        self.scope.push(i);
        self.protected.push(i);
        self.loops.push(LoopCtx { label: None, brk: None });
        let n = 1 + self.s.len(0, 2);
        let mut stmts = vec![];
        for _ in 0..n {
            let Ty::Arr(t) = self.p.vars[a].ty.clone() else { unreachable!() };
            let idx = match self.s.below(5) {
                0 | 1 => E::Var(i),
                2 => E::Neg(Box::new(E::Bin(Op::Add, Box::new(E::Var(i)), Box::new(E::Lit(Lit::Int(1)))))),
                3 if self.f.failing > 0 => E::Bin(Op::Sub, Box::new(E::Var(i)), Box::new(E::Lit(Lit::Int(1)))),
                4 if self.f.failing > 0 => E::Bin(Op::Add, Box::new(E::Var(i)), Box::new(E::Lit(Lit::Int(1)))),
                _ => E::Var(i),
            };
            let el = E::Index(Box::new(E::Var(a)), Box::new(idx));
            let writable = self.p.vars[a].mutable && !self.frozen.contains(&a) && !self.protected.contains(&a);
            if writable && self.s.flip() {
                let n = self.frozen.len();
                self.frozen.push(a);
                let v = self.expr(&t, d - 1);
                self.frozen.truncate(n);
                stmts.push(Stmt::Expr(E::Assign(Box::new(el), Box::new(v))));
            } else if let Some(p) = self.is_int_place(&t)
                && Self::root(&p) != Some(a)
            {
                let p = self.pure_fill(p);
                stmts.push(Stmt::Expr(E::Assign(Box::new(p), Box::new(el))));
            } else {
                let v = self.declare(*t, true);
                stmts.push(Stmt::Let(Pat::Var(v), None, el));
                self.scope.push(v);
            }
            if self.s.chance(1, 3) {
                let st = self.stmt(d - 1);
                stmts.push(st);
            }
            // A shadowed array would change what the index means.
            if !self.visible().contains(&a) {
                break;
            }
        }
        self.loops.pop();
        self.restore(saved);
        Some(E::For(Pat::Var(i), Box::new(seq), Box::new(E::Block(stmts, None))))
    }

    // ---- functions ----
    fn function(&mut self, method: Option<(usize, Ty)>) {
        let saved_scope = std::mem::take(&mut self.scope);
        let mut params = vec![];
        let ret;
        let recursive = method.is_none() && self.f.recursion > 0 && self.s.chance(self.f.recursion as u64, 4);
        if let Some((t, self_ty)) = &method {
            let tr = self.p.traits[*t].clone();
            let x = self.p.new_var("x", self_ty.clone(), false);
            params.push((x, Pass::Val));
            for (i, t) in tr.extra.iter().enumerate() {
                let v = self.p.new_var(&format!("k{i}"), t.clone(), false);
                params.push((v, Pass::Val));
            }
            ret = tr.ret;
        } else {
            if recursive {
                let n = self.p.new_var(&format!("n{}", self.p.vars.len()), Ty::Int, false);
                self.protected.push(n);
                params.push((n, Pass::Val));
            }
            let n = self.s.len(if recursive { 0 } else { 1 }, 3);
            for _ in 0..n {
                let t = if self.f.closures > 0 && self.s.chance(1, 8) { self.fun_ty() } else { self.ty(2) };
                let pass = match self.s.weighted(&[5, 2, self.f.refs * 2]) {
                    0 => Pass::Val,
                    1 => Pass::Local,
                    _ => Pass::Ref,
                };
                let pass = if format!("{t:?}").contains("Tracked") && pass == Pass::Ref { Pass::Val } else { pass };
                let pass = if matches!(t, Ty::Fun(..)) { Pass::Val } else { pass };
                let v = self.declare(t, pass != Pass::Val);
                if params.iter().any(|(o, _): &(Var, Pass)| self.p.vars[*o].name == self.p.vars[v].name) {
                    self.p.vars[v].name = format!("p{v}");
                }
                params.push((v, pass));
            }
            ret = self.ty(2);
        }
        self.scope.extend(params.iter().map(|p| p.0));
        self.ret = Some(ret.clone());
        let idx = self.p.funs.len();
        self.current = Some((idx, params.first().map(|p| p.0).unwrap_or(0)));
        let share = self.left;
        self.left = (self.left / 3).max(8);
        let used = self.left;
        let body = if recursive {
            let base = self.expr(&ret, 1);
            let n = params[0].0;
            let guard = E::Bin(Op::Le, Box::new(E::Var(n)), Box::new(E::Lit(Lit::Int(0))));
            let saved = self.save();
            let mut stmts = vec![];
            let k = self.s.len(0, 2);
            for _ in 0..k {
                let s = self.stmt(2);
                stmts.push(s);
            }
            // The recursive call, bound so that the rest can use it.
            let ps: Vec<(bool, Ty)> =
                params.iter().map(|(v, p)| (*p == Pass::Ref, self.p.vars[*v].ty.clone())).collect();
            if let Some(mut args) = self.args(&ps, 1) {
                args[0] = E::Bin(Op::Sub, Box::new(E::Var(n)), Box::new(E::Lit(Lit::Int(1))));
                let v = self.declare(ret.clone(), true);
                if self.visible().contains(&n) {
                    stmts.push(Stmt::Let(Pat::Var(v), None, E::Call(Callee::Fn(usize::MAX), args)));
                    self.scope.push(v);
                    self.seen("recursion");
                }
            }
            let last = self.expr(&ret, 2);
            self.restore(saved);
            let rec = E::Block(stmts, Some(Box::new(last)));
            E::Block(vec![], Some(Box::new(E::If(Box::new(guard), Box::new(base), Some(Box::new(rec))))))
        } else {
            self.block(&ret, 3)
        };
        self.left = share - (used - self.left.max(0));
        self.current = None;
        self.ret = None;
        self.scope = saved_scope;
        let idx = self.p.funs.len();
        let body = set_self(body, idx);
        let name = match &method {
            Some((t, _)) => self.p.traits[*t].method.clone(),
            None => format!("f{idx}"),
        };
        let inline_never = method.is_none() && self.s.chance(1, 6);
        if let Some((t, _)) = &method {
            self.p.traits[*t].impls.push(idx);
        }
        self.p.funs.push(Func { name, params, ret, body, annotate: true, inline_never, method });
    }
    fn make_traits(&mut self) {
        if self.f.traits == 0 || !self.s.chance(self.f.traits as u64, 4) {
            return;
        }
        self.seen("trait");
        let n = self.s.len(0, 2);
        let saved = self.f.tracked;
        self.f.tracked = 0;
        let plain = |t: Ty, p: &Prog| if t.has_fun(p) { Ty::Int } else { t };
        let extra = (0..n).map(|_| plain(self.ty(1), &self.p)).collect();
        let ret = plain(self.ty(1), &self.p);
        let t = self.p.traits.len();
        let effects = if self.f.host > 0 { "(read, write, fallible)" } else { "fallible" };
        self.p.traits.push(Trait { name: format!("Tr{t}"), method: format!("meth{t}"), extra, ret, effects, impls: vec![] });
        let mut tys = vec![Ty::Int, Ty::Bool, Ty::Str];
        for a in 0..self.p.adts.len() {
            tys.push(Ty::Adt(a));
        }
        let k = 1 + self.s.idx(3);
        for ty in tys.into_iter().take(k + 1) {
            self.function(Some((t, ty)));
        }
        self.f.tracked = saved;
    }

    // ---- programs ----
    pub fn program(&mut self) {
        self.make_adts();
        self.make_traits();
        let n = self.s.len(0, self.f.max_funs);
        for _ in 0..n {
            self.function(None);
        }
        self.main();
        let mut vars = std::mem::take(&mut self.p.vars);
        for f in &mut self.p.funs {
            f.body = settle(std::mem::replace(&mut f.body, E::Lit(Lit::Unit)), &mut vars);
        }
        self.p.main = self.p.main.take().map(|m| settle(m, &mut vars));
        self.p.vars = vars;
    }
    pub fn main(&mut self) {
        let n = 2 + self.s.len(0, 5);
        let mut stmts = vec![];
        self.left = self.left.max(25);
        for i in 0..n {
            let s = if i == 0 { self.let_stmt(2) } else { self.stmt(3) };
            stmts.push(s);
        }
        let t = self.ty(2);
        let result = self.expr(&t, 3);
        let mut parts = vec![result];
        let mut tys = vec![t];
        for v in self.visible().into_iter().take(8) {
            let ty = self.p.vars[v].ty.clone();
            if !ty.has_fun(&self.p) {
                parts.push(E::Var(v));
                tys.push(ty);
            }
        }
        self.p.main = Some(E::Block(stmts, Some(Box::new(E::Tup(parts)))));
        self.p.main_ty = Some(Ty::Tup(tys));
    }
}

/// Replaces the placeholder callee of recursive calls by the function's index.
fn set_self(e: E, idx: usize) -> E {
    map_expr(e, &mut |e| match e {
        E::Call(Callee::Fn(usize::MAX), a) => E::Call(Callee::Fn(idx), a),
        e => e,
    })
}

/// Rebuilds an expression bottom-up.
pub fn map_expr(e: E, f: &mut dyn FnMut(E) -> E) -> E {
    let e = map_children(e, f);
    f(e)
}
pub fn map_children(e: E, f: &mut dyn FnMut(E) -> E) -> E {
    fn m(b: B<E>, f: &mut dyn FnMut(E) -> E) -> B<E> {
        Box::new(map_expr(*b, f))
    }
    fn c(c: Callee, f: &mut dyn FnMut(E) -> E) -> Callee {
        match c {
            Callee::Val(e) => Callee::Val(m(e, f)),
            c => c,
        }
    }
    fn all(v: Vec<E>, f: &mut dyn FnMut(E) -> E) -> Vec<E> {
        v.into_iter().map(|e| map_expr(e, f)).collect()
    }
    fn named(v: Vec<(String, E)>, f: &mut dyn FnMut(E) -> E) -> Vec<(String, E)> {
        v.into_iter().map(|(n, e)| (n, map_expr(e, f))).collect()
    }
    match e {
        E::FnRef(x) => E::FnRef(c(x, f)),
        E::Neg(x) => E::Neg(m(x, f)),
        E::Not(x) => E::Not(m(x, f)),
        E::Bin(op, a, b) => {
            let a = m(a, f);
            E::Bin(op, a, m(b, f))
        }
        E::Cast(x, t) => E::Cast(m(x, f), t),
        E::Typed(x, t) => E::Typed(m(x, f), t),
        E::Paren(x) => E::Paren(m(x, f)),
        E::Tup(v) => E::Tup(all(v, f)),
        E::Arr(v) => E::Arr(all(v, f)),
        E::Rec(v) => E::Rec(named(v, f)),
        E::Some(x) => E::Some(m(x, f)),
        E::Ctor(a, i, v) => E::Ctor(a, i, all(v, f)),
        E::CtorRec(a, i, v) => E::CtorRec(a, i, named(v, f)),
        E::Field(x, fl) => E::Field(m(x, f), fl),
        E::Index(a, b) => {
            let a = m(a, f);
            E::Index(a, m(b, f))
        }
        E::If(a, b, x) => {
            let a = m(a, f);
            let b = m(b, f);
            E::If(a, b, x.map(|x| m(x, f)))
        }
        E::Match(s, arms, d) => {
            let s = m(s, f);
            let arms = arms.into_iter().map(|(p, e)| (p, map_expr(e, f))).collect();
            E::Match(s, arms, d.map(|x| m(x, f)))
        }
        E::Block(st, l) => {
            let st = st
                .into_iter()
                .map(|s| match s {
                    Stmt::Let(p, t, e) => Stmt::Let(p, t, map_expr(e, f)),
                    Stmt::Expr(e) => Stmt::Expr(map_expr(e, f)),
                })
                .collect();
            E::Block(st, l.map(|x| m(x, f)))
        }
        E::Loop(l, b) => E::Loop(l, m(b, f)),
        E::For(p, a, b) => {
            let a = m(a, f);
            E::For(p, a, m(b, f))
        }
        E::Range(a, b, i) => {
            let a = m(a, f);
            E::Range(a, m(b, f), i)
        }
        E::Break(l, v) => E::Break(l, v.map(|x| m(x, f))),
        E::Return(v) => E::Return(m(v, f)),
        E::Assign(a, b) => {
            let a = m(a, f);
            E::Assign(a, m(b, f))
        }
        E::AssignOp(op, a, b) => {
            let a = m(a, f);
            E::AssignOp(op, a, m(b, f))
        }
        E::Call(x, v) => {
            let x = c(x, f);
            E::Call(x, all(v, f))
        }
        E::Pipe(a, x, v) => {
            let a = m(a, f);
            let x = c(x, f);
            E::Pipe(a, x, all(v, f))
        }
        E::Lambda(l) => {
            E::Lambda(Rc::new(Lambda { params: l.params.clone(), body: map_expr(l.body.clone(), f) }))
        }
        E::PropSet(n, v) => E::PropSet(n, m(v, f)),
        e => e,
    }
}

/// True if evaluating the expression can stop or leave before it is complete.
fn risky(e: &E) -> bool {
    let mut found = false;
    any(e, &mut |e| {
        found |= matches!(
            e,
            E::Index(..) | E::Call(..) | E::Pipe(..) | E::Bin(Op::Div, ..) | E::Break(..) | E::Continue(..) | E::Return(..)
                | E::PropSet(..) | E::PropGet(..)
        );
    });
    found
}
fn awkward(e: &E) -> bool {
    risky(e) && (builds(e) || !matches!(e, E::Call(Callee::Fn(_) | Callee::Std(_), _) | E::Index(..)))
}
fn builds(e: &E) -> bool {
    let mut found = false;
    any(e, &mut |e| {
        found |= matches!(e, E::Tup(_) | E::Rec(_) | E::Ctor(..) | E::CtorRec(..) | E::Some(_));
    });
    found
}
/// Visits an expression without the bodies of its lambdas.
pub fn any(e: &E, f: &mut dyn FnMut(&E)) {
    // A rebuilding walk is enough here; expressions are small.
    f(e);
    let mut kids = vec![];
    children(e, &mut kids);
    for k in kids {
        any(k, f);
    }
}
pub fn children<'a>(e: &'a E, out: &mut Vec<&'a E>) {
    let callee = |c: &'a Callee, out: &mut Vec<&'a E>| {
        if let Callee::Val(e) = c {
            out.push(e)
        }
    };
    match e {
        E::FnRef(c) => callee(c, out),
        E::Neg(x) | E::Not(x) | E::Cast(x, _) | E::Typed(x, _) | E::Paren(x) | E::Some(x) | E::Field(x, _) | E::Loop(_, x)
        | E::Return(x) | E::PropSet(_, x) => out.push(x),
        E::Bin(_, a, b) | E::Index(a, b) | E::For(_, a, b) | E::Range(a, b, _) | E::Assign(a, b) | E::AssignOp(_, a, b) => {
            out.extend([&**a, &**b])
        }
        E::Tup(v) | E::Arr(v) | E::Ctor(_, _, v) => out.extend(v),
        E::Rec(v) | E::CtorRec(_, _, v) => out.extend(v.iter().map(|x| &x.1)),
        E::If(a, b, c) => {
            out.extend([&**a, &**b]);
            out.extend(c.iter().map(|x| &**x));
        }
        E::Match(s, arms, d) => {
            out.push(s);
            out.extend(arms.iter().map(|x| &x.1));
            out.extend(d.iter().map(|x| &**x));
        }
        E::Block(st, l) => {
            for s in st {
                match s {
                    Stmt::Let(_, _, e) | Stmt::Expr(e) => out.push(e),
                }
            }
            out.extend(l.iter().map(|x| &**x));
        }
        E::Break(_, v) => out.extend(v.iter().map(|x| &**x)),
        E::Call(c, v) => {
            callee(c, out);
            out.extend(v);
        }
        E::Pipe(a, c, v) => {
            out.push(a);
            callee(c, out);
            out.extend(v);
        }
        E::Lit(_) | E::Var(_) | E::EmptyArr(_) | E::None(_) | E::Continue(_) | E::Lambda(_) | E::FStr(_) | E::PropGet(_) => {}
    }
}

/// Binds the components of nested aggregates that can stop before they are complete to variables
/// first, so that the program does not meet the known finding about partially built aggregates.
fn settle(e: E, vars: &mut Vec<VarInfo>) -> E {
    map_expr(e, &mut |e| {
        let hit = match &e {
            E::Tup(v) => v.iter().any(awkward),
            E::Rec(v) => v.iter().any(|x| awkward(&x.1)),
            E::Ctor(_, _, v) => v.iter().any(risky),
            E::CtorRec(_, _, v) => v.iter().any(|x| risky(&x.1)),
            E::Some(x) => risky(x),
            _ => false,
        };
        if !hit {
            return e;
        }
        let mut stmts = vec![];
        let mut bind = |x: E| -> E {
            if matches!(x, E::Lit(_) | E::EmptyArr(_) | E::None(_) | E::Lambda(_) | E::FnRef(_)) {
                return x;
            }
            let v = vars.len();
            vars.push(VarInfo { name: format!("part{v}"), ty: Ty::Unit, mutable: false });
            stmts.push(Stmt::Let(Pat::Var(v), None, x));
            E::Var(v)
        };
        let whole = match e {
            E::Tup(v) => E::Tup(v.into_iter().map(bind).collect()),
            E::Ctor(a, i, v) => E::Ctor(a, i, v.into_iter().map(bind).collect()),
            E::Rec(v) => E::Rec(v.into_iter().map(|(n, x)| (n, bind(x))).collect()),
            E::CtorRec(a, i, v) => E::CtorRec(a, i, v.into_iter().map(|(n, x)| (n, bind(x))).collect()),
            E::Some(x) => E::Some(Box::new(bind(*x))),
            e => e,
        };
        E::Block(stmts, Some(Box::new(whole)))
    })
}
