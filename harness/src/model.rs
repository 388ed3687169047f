//! Reference interpreter for abstract programs, written from the language's documented semantics.
use std::collections::HashMap;
use std::rc::Rc;

use crate::host::{Ev, HostState, cell};
use crate::lang::*;
use crate::rt::{Out, RV};

#[derive(Clone, Debug)]
pub enum V {
    Unit,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Tracked(i64),
    Tup(Vec<V>),
    /// Fields sorted by name.
    Rec(Vec<(String, V)>),
    Arr(Vec<V>),
    /// Structs: fields in declaration order for tuples, sorted by name for records.
    Variant(String, Box<V>),
    Fun(Rc<Fun>),
}

#[derive(Debug)]
pub enum Fun {
    Named(usize),
    Std(&'static str),
    Clos(Rc<Lambda>, Vec<(Var, V)>),
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Unit, V::Unit) => true,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Int(a), V::Int(b)) => a == b,
            (V::Tracked(a), V::Tracked(b)) => a == b,
            (V::Float(a), V::Float(b)) => a == b,
            (V::Str(a), V::Str(b)) => a == b,
            (V::Tup(a), V::Tup(b)) | (V::Arr(a), V::Arr(b)) => a == b,
            (V::Rec(a), V::Rec(b)) => a == b,
            (V::Variant(a, x), V::Variant(b, y)) => a == b && x == y,
            _ => false,
        }
    }
}

impl V {
    pub fn rv(&self) -> RV {
        match self {
            V::Unit => RV::Unit,
            V::Bool(b) => RV::Bool(*b),
            V::Int(i) => RV::Int(*i),
            V::Float(f) => RV::Float(f.to_bits()),
            V::Str(s) => RV::Str(s.clone()),
            V::Tracked(_) => RV::Other("native".into()),
            V::Tup(v) => RV::Tuple(v.iter().map(|x| x.rv()).collect()),
            V::Rec(v) => RV::Tuple(v.iter().map(|x| x.1.rv()).collect()),
            V::Arr(v) => RV::Array(v.iter().map(|x| x.rv()).collect()),
            V::Variant(t, p) => RV::Variant(
                t.clone(),
                match &**p {
                    V::Unit => None,
                    p => Some(Box::new(p.rv())),
                },
            ),
            V::Fun(_) => RV::Other("function".into()),
        }
    }
    pub fn some(v: V) -> V {
        V::Variant("Some".into(), Box::new(V::Tup(vec![v])))
    }
    pub fn none() -> V {
        V::Variant("None".into(), Box::new(V::Unit))
    }
    pub fn int(&self) -> i64 {
        match self {
            V::Int(i) => *i,
            v => panic!("model: int expected, got {v:?}"),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            V::Bool(i) => *i,
            v => panic!("model: bool expected, got {v:?}"),
        }
    }
    fn arr(self) -> Vec<V> {
        match self {
            V::Arr(a) => a,
            v => panic!("model: array expected, got {v:?}"),
        }
    }
    pub fn size(&self) -> usize {
        1 + match self {
            V::Tup(v) | V::Arr(v) => v.iter().map(|x| x.size()).sum(),
            V::Rec(v) => v.iter().map(|x| x.1.size()).sum(),
            V::Variant(_, p) => p.size(),
            V::Str(s) => s.len() / 8,
            _ => 0,
        }
    }
    pub fn text(&self) -> String {
        match self {
            V::Unit => "()".into(),
            V::Bool(b) => b.to_string(),
            V::Int(i) => i.to_string(),
            V::Float(f) => f.to_string(),
            V::Str(s) => s.clone(),
            v => panic!("model: no text for {v:?}"),
        }
    }
}

#[derive(Clone, Debug)]
enum Step {
    Pos(usize),
    Name(String),
}

#[derive(Clone, Debug)]
struct Place {
    slot: usize,
    path: Vec<Step>,
}

#[derive(Debug)]
enum Ctl {
    Break(Option<usize>, V),
    Continue(Option<usize>),
    Return(V),
    Fail(String),
    Stop,
}
type R<T> = Result<T, Ctl>;

pub struct Interp<'a> {
    p: &'a Prog,
    slots: Vec<V>,
    env: HashMap<Var, Place>,
    pub steps: u64,
    pub max_steps: u64,
    depth: usize,
    pub max_depth: usize,
    pub host: HostState,
    /// Label of the innermost loops, for unlabelled jumps.
    pub loops: Vec<Option<usize>>,
}

pub enum MOut {
    Val(V),
    Fail(String),
    Stop,
}

impl MOut {
    pub fn out(&self) -> Option<Out> {
        match self {
            MOut::Val(v) => Some(Out::Val(v.rv())),
            MOut::Fail(f) => Some(Out::Fail(f.clone())),
            MOut::Stop => None,
        }
    }
}

fn oob(i: i64, len: usize) -> Ctl {
    Ctl::Fail(format!("Aborted: Array access out of bounds: index {i} for length {len}"))
}
fn resolve(i: i64, len: usize) -> R<usize> {
    let r = if i < 0 { i + len as i64 } else { i };
    if r < 0 || r >= len as i64 { Err(oob(i, len)) } else { Ok(r as usize) }
}

impl<'a> Interp<'a> {
    pub fn new(p: &'a Prog, host: HostState) -> Interp<'a> {
        Interp {
            p,
            slots: vec![],
            env: HashMap::new(),
            steps: 0,
            max_steps: 3000,
            depth: 0,
            max_depth: 40,
            host,
            loops: vec![],
        }
    }
    pub fn run(&mut self) -> MOut {
        let Some(main) = &self.p.main else { return MOut::Val(V::Unit) };
        match self.eval(main) {
            Ok(v) => MOut::Val(v),
            Err(Ctl::Return(v)) => MOut::Val(v),
            Err(Ctl::Fail(f)) => MOut::Fail(f),
            Err(Ctl::Stop) => MOut::Stop,
            Err(c) => panic!("model: stray {c:?}"),
        }
    }
    fn step(&mut self, n: u64) -> R<()> {
        self.steps += n;
        if self.steps > self.max_steps { Err(Ctl::Stop) } else { Ok(()) }
    }
    fn log(&mut self, e: Ev) {
        if self.host.trace.len() < 20_000 {
            self.host.trace.push(e);
        }
    }
    fn bind(&mut self, v: Var, val: V) {
        self.slots.push(val);
        self.env.insert(v, Place { slot: self.slots.len() - 1, path: vec![] });
    }
    fn at(&mut self, p: &Place) -> &mut V {
        let mut v = &mut self.slots[p.slot];
        for s in &p.path {
            // Structs hold their fields in a payload.
            if let V::Variant(_, inner) = v {
                v = inner;
            }
            v = match (s, v) {
                (Step::Pos(i), V::Tup(t)) | (Step::Pos(i), V::Arr(t)) => {
                    let n = t.len();
                    t.get_mut(*i).unwrap_or_else(|| panic!("model: stale place {i} of {n}"))
                }
                (Step::Name(n), V::Rec(t)) => &mut t.iter_mut().find(|x| x.0 == *n).unwrap().1,
                (s, v) => panic!("model: step {s:?} into {v:?}"),
            };
        }
        v
    }
    fn is_place(e: &E) -> bool {
        match e {
            E::Var(_) => true,
            E::Field(x, _) | E::Index(x, _) => Self::is_place(x),
            E::Paren(x) => Self::is_place(x),
            _ => false,
        }
    }
    /// Evaluates a place; indices are evaluated and checked now.
    fn place(&mut self, e: &E) -> R<Place> {
        match e {
            E::Var(v) => Ok(self.env.get(v).unwrap_or_else(|| panic!("model: unbound {}", self.p.vars[*v].name)).clone()),
            E::Paren(x) => self.place(x),
            E::Field(x, f) => {
                let mut p = self.place(x)?;
                p.path.push(match f {
                    Fld::Pos(i) => Step::Pos(*i),
                    Fld::Name(n) => Step::Name(n.clone()),
                });
                Ok(p)
            }
            E::Index(x, i) => {
                let mut p = self.place(x)?;
                let i = self.eval(i)?.int();
                self.step(2)?;
                let len = match self.at(&p) {
                    V::Arr(a) => a.len(),
                    v => panic!("model: index into {v:?}"),
                };
                p.path.push(Step::Pos(resolve(i, len)?));
                Ok(p)
            }
            e => panic!("model: not a place {e:?}"),
        }
    }
    fn read(&mut self, p: &Place) -> R<V> {
        let v = self.at(p).clone();
        self.step(v.size() as u64 / 4)?;
        Ok(v)
    }
    fn field(v: V, f: &Fld) -> V {
        let v = match v {
            V::Variant(_, p) => *p,
            v => v,
        };
        match (f, v) {
            (Fld::Pos(i), V::Tup(t)) => t[*i].clone(),
            (Fld::Name(n), V::Rec(t)) => t.iter().find(|x| x.0 == *n).unwrap().1.clone(),
            (f, v) => panic!("model: field {f:?} of {v:?}"),
        }
    }
    fn scoped<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let slots = self.slots.len();
        let r = f(self);
        self.slots.truncate(slots);
        r
    }
    fn bind_pat(&mut self, p: &Pat, v: V) {
        match p {
            Pat::Var(x) => self.bind(*x, v),
            Pat::Wild => {}
            Pat::Tup(ps) => {
                for (i, p) in ps.iter().enumerate() {
                    self.bind_pat(p, Self::field(v.clone(), &Fld::Pos(i)));
                }
            }
            Pat::StructTup(_, ps, _) => {
                for (i, p) in ps.iter().enumerate() {
                    self.bind_pat(p, Self::field(v.clone(), &Fld::Pos(i)));
                }
            }
            Pat::Rec(fs) | Pat::StructRec(_, fs, _) => {
                for (n, p) in fs {
                    self.bind_pat(p, Self::field(v.clone(), &Fld::Name(n.clone())));
                }
            }
        }
    }
    fn lit(l: &Lit) -> V {
        match l {
            Lit::Unit => V::Unit,
            Lit::Bool(b) => V::Bool(*b),
            Lit::Int(i) => V::Int(*i),
            Lit::Float(f) => V::Float(*f),
            Lit::Str(s) => V::Str(s.clone()),
        }
    }
    /// Whether the pattern matches, and what it binds.
    fn matches(&self, p: &MPat, v: &V) -> Option<Vec<(Var, V)>> {
        let payload = |tag: &str| match v {
            V::Variant(t, p) if t == tag => Some((**p).clone()),
            _ => None,
        };
        match p {
            MPat::Lit(l) => (Self::lit(l) == *v).then(Vec::new),
            MPat::Tup(ps) => {
                let V::Tup(vs) = v else { panic!("model: tuple pattern on {v:?}") };
                ps.iter().zip(vs).all(|(p, v)| self.matches(p, v).is_some()).then(Vec::new)
            }
            MPat::RecLit(ps) => ps
                .iter()
                .all(|(n, p)| self.matches(p, &Self::field(v.clone(), &Fld::Name(n.clone()))).is_some())
                .then(Vec::new),
            MPat::None => payload("None").map(|_| vec![]),
            MPat::Some(x) => payload("Some").map(|p| vec![(*x, Self::field(p, &Fld::Pos(0)))]),
            MPat::Tag(a, i, _, vs) => payload(&self.p.adts[*a].variants[*i].0)
                .map(|p| vs.iter().enumerate().map(|(k, x)| (*x, Self::field(p.clone(), &Fld::Pos(k)))).collect()),
            MPat::TagRec(a, i, _, fs, _) => payload(&self.p.adts[*a].variants[*i].0)
                .map(|p| fs.iter().map(|(n, x)| (*x, Self::field(p.clone(), &Fld::Name(n.clone())))).collect()),
        }
    }
    fn block(&mut self, stmts: &[Stmt], last: &Option<B<E>>) -> R<V> {
        let saved = self.env.clone();
        let r = self.scoped(|s| {
            for st in stmts {
                match st {
                    Stmt::Let(p, _, e) => {
                        let v = s.eval(e)?;
                        s.bind_pat(p, v);
                    }
                    Stmt::Expr(e) => {
                        s.eval(e)?;
                    }
                }
            }
            match last {
                Some(e) => s.eval(e),
                None => Ok(V::Unit),
            }
        });
        self.env = saved;
        r
    }
    fn binop(op: Op, a: V, b: V) -> R<V> {
        Ok(match (op, a, b) {
            (Op::Add, V::Int(a), V::Int(b)) => V::Int(a.wrapping_add(b)),
            (Op::Sub, V::Int(a), V::Int(b)) => V::Int(a.wrapping_sub(b)),
            (Op::Mul, V::Int(a), V::Int(b)) => V::Int(a.wrapping_mul(b)),
            (Op::Add, V::Float(a), V::Float(b)) => V::Float(finite(a + b)?),
            (Op::Sub, V::Float(a), V::Float(b)) => V::Float(finite(a - b)?),
            (Op::Mul, V::Float(a), V::Float(b)) => V::Float(finite(a * b)?),
            (Op::Div, V::Float(a), V::Float(b)) => {
                if b == 0.0 {
                    return Err(Ctl::Fail("DivisionByZero".into()));
                }
                V::Float(finite(a / b)?)
            }
            (Op::Eq, a, b) => V::Bool(a == b),
            (Op::Ne, a, b) => V::Bool(a != b),
            (op, a, b) => {
                let o = Self::compare(&a, &b);
                V::Bool(match op {
                    Op::Lt => o.is_lt(),
                    Op::Le => o.is_le(),
                    Op::Gt => o.is_gt(),
                    Op::Ge => o.is_ge(),
                    op => panic!("model: {op:?} on {a:?} {b:?}"),
                })
            }
        })
    }
    pub fn compare(a: &V, b: &V) -> std::cmp::Ordering {
        match (a, b) {
            (V::Int(a), V::Int(b)) => a.cmp(b),
            (V::Float(a), V::Float(b)) => a.partial_cmp(b).unwrap(),
            (V::Str(a), V::Str(b)) => a.as_bytes().cmp(b.as_bytes()),
            (V::Tup(a), V::Tup(b)) => {
                for (x, y) in a.iter().zip(b) {
                    let o = Self::compare(x, y);
                    if !o.is_eq() {
                        return o;
                    }
                }
                std::cmp::Ordering::Equal
            }
            (a, b) => panic!("model: ordering of {a:?} {b:?}"),
        }
    }
    fn in_loop(&mut self, label: Option<usize>, body: &E) -> R<Option<V>> {
        self.loops.push(label);
        let r = self.eval(body);
        self.loops.pop();
        match r {
            Ok(_) => Ok(None),
            Err(Ctl::Break(l, v)) if l.is_none() || l == label => Ok(Some(v)),
            Err(Ctl::Continue(l)) if l.is_none() || l == label => Ok(None),
            Err(c) => Err(c),
        }
    }
    fn eval_all(&mut self, v: &[E]) -> R<Vec<V>> {
        v.iter().map(|e| self.eval(e)).collect()
    }
    fn eval(&mut self, e: &E) -> R<V> {
        self.step(1)?;
        match e {
            E::Lit(l) => Ok(Self::lit(l)),
            E::Var(_) | E::Field(..) | E::Index(..) if Self::is_place(e) => {
                let p = self.place(e)?;
                self.read(&p)
            }
            E::Var(_) => unreachable!(),
            E::Field(x, f) => Ok(Self::field(self.eval(x)?, f)),
            E::Index(x, i) => {
                let a = self.eval(x)?.arr();
                let i = self.eval(i)?.int();
                self.step(2)?;
                let k = resolve(i, a.len())?;
                Ok(a[k].clone())
            }
            E::FnRef(c) => Ok(V::Fun(Rc::new(match c {
                Callee::Fn(i) | Callee::Method(_, i) => Fun::Named(*i),
                Callee::Std(n) => Fun::Std(n),
                Callee::Val(e) => return self.eval(e),
            }))),
            E::Neg(x) => Ok(match self.eval(x)? {
                V::Int(i) => V::Int(i.wrapping_neg()),
                V::Float(f) => V::Float(-f),
                v => panic!("model: minus {v:?}"),
            }),
            E::Not(x) => Ok(V::Bool(!self.eval(x)?.bool())),
            E::Bin(Op::And, a, b) => Ok(V::Bool(self.eval(a)?.bool() && self.eval(b)?.bool())),
            E::Bin(Op::Or, a, b) => Ok(V::Bool(self.eval(a)?.bool() || self.eval(b)?.bool())),
            E::Bin(op, a, b) => {
                let a = self.eval(a)?;
                let b = self.eval(b)?;
                self.step((a.size() as u64) / 4)?;
                Self::binop(*op, a, b)
            }
            E::Cast(x, t) => Ok(match (self.eval(x)?, t) {
                (V::Int(i), Ty::Float) => V::Float(i as f64),
                (V::Float(f), Ty::Int) => V::Int(f as i64),
                (v, _) => v,
            }),
            E::Typed(x, _) | E::Paren(x) => self.eval(x),
            E::Tup(v) => Ok(V::Tup(self.eval_all(v)?)),
            E::Rec(v) => self.record(v),
            E::Arr(v) => Ok(V::Arr(self.eval_all(v)?)),
            E::EmptyArr(_) => Ok(V::Arr(vec![])),
            E::None(_) => Ok(V::none()),
            E::Some(x) => Ok(V::some(self.eval(x)?)),
            E::Ctor(a, i, v) => {
                let adt = &self.p.adts[*a];
                let p = match &adt.variants[*i].1 {
                    Payload::Unit if adt.is_struct => V::Tup(vec![]),
                    Payload::Unit => V::Unit,
                    _ => V::Tup(self.eval_all(v)?),
                };
                Ok(if adt.is_struct { p } else { V::Variant(adt.variants[*i].0.clone(), Box::new(p)) })
            }
            E::CtorRec(a, i, v) => {
                let p = self.record(v)?;
                let adt = &self.p.adts[*a];
                Ok(if adt.is_struct { p } else { V::Variant(adt.variants[*i].0.clone(), Box::new(p)) })
            }
            E::If(c, t, f) => {
                if self.eval(c)?.bool() {
                    self.eval(t)
                } else if let Some(f) = f {
                    self.eval(f)
                } else {
                    Ok(V::Unit)
                }
            }
            E::Match(s, arms, d) => {
                let v = self.eval(s)?;
                for (p, e) in arms {
                    if let Some(binds) = self.matches(p, &v) {
                        let saved = self.env.clone();
                        let r = self.scoped(|s| {
                            for (x, v) in binds {
                                s.bind(x, v);
                            }
                            s.eval(e)
                        });
                        self.env = saved;
                        return r;
                    }
                }
                self.eval(d.as_ref().expect("model: no arm matches"))
            }
            E::Block(s, l) => self.block(s, l),
            E::Loop(label, b) => loop {
                self.step(1)?;
                if let Some(v) = self.in_loop(*label, b)? {
                    return Ok(v);
                }
            },
            E::Range(..) => panic!("model: range as a value"),
            E::For(pat, seq, b) => {
                let items: Vec<V> = match &**seq {
                    E::Range(a, b, incl) => {
                        let a = self.eval(a)?.int();
                        let b = self.eval(b)?.int();
                        range_items(a, b, *incl).into_iter().map(V::Int).collect()
                    }
                    E::Call(Callee::Std("enumerate"), args) => {
                        let v = self.eval(&args[0])?.arr();
                        v.into_iter().enumerate().map(|(i, x)| V::Tup(vec![V::Int(i as i64), x])).collect()
                    }
                    seq => self.eval(seq)?.arr(),
                };
                for item in items {
                    self.step(5)?;
                    let saved = self.env.clone();
                    let r = self.scoped(|s| {
                        s.bind_pat(pat, item);
                        s.in_loop(None, b)
                    });
                    self.env = saved;
                    if r?.is_some() {
                        break;
                    }
                }
                Ok(V::Unit)
            }
            E::Break(l, v) => {
                let v = match v {
                    Some(v) => self.eval(v)?,
                    None => V::Unit,
                };
                Err(Ctl::Break(*l, v))
            }
            E::Continue(l) => Err(Ctl::Continue(*l)),
            E::Return(v) => {
                let v = self.eval(v)?;
                Err(Ctl::Return(v))
            }
            E::Assign(p, v) => {
                let p = self.place(p)?;
                let v = self.eval(v)?;
                *self.at(&p) = v;
                Ok(V::Unit)
            }
            E::AssignOp(op, p, v) => {
                let p = self.place(p)?;
                let old = self.read(&p)?;
                let v = self.eval(v)?;
                *self.at(&p) = Self::binop(*op, old, v)?;
                Ok(V::Unit)
            }
            E::Call(c, args) => self.call(c, None, args),
            E::Pipe(x, c, args) => self.call(c, Some(x), args),
            E::Lambda(l) => {
                let mut used = vec![];
                free(&l.body, &mut used);
                let mut env: Vec<(Var, V)> = vec![];
                for v in used {
                    if let Some(p) = self.env.get(&v).cloned()
                        && !env.iter().any(|x| x.0 == v)
                        && !l.params.iter().any(|x| x.0 == v)
                    {
                        let val = self.at(&p).clone();
                        env.push((v, val));
                    }
                }
                Ok(V::Fun(Rc::new(Fun::Clos(l.clone(), env))))
            }
            E::FStr(ps) => {
                let mut s = String::new();
                for p in ps {
                    match p {
                        Piece::Text(t) => s.push_str(t),
                        Piece::Var(v) => {
                            let p = self.place(&E::Var(*v))?;
                            s.push_str(&self.at(&p).text());
                        }
                    }
                }
                self.step(s.len() as u64 / 8)?;
                Ok(V::Str(s))
            }
            E::PropGet("x") => {
                self.log(Ev::PropGet);
                Ok(V::Int(self.host.prop))
            }
            E::PropGet(_) => {
                self.log(Ev::ArrGet);
                Ok(V::Arr(self.host.arr.iter().map(|i| V::Int(*i)).collect()))
            }
            E::PropSet(n, v) => {
                let v = self.eval(v)?;
                if *n == "x" {
                    self.log(Ev::PropSet(v.int()));
                    self.host.prop = v.int();
                } else {
                    let v: Vec<i64> = v.arr().iter().map(|x| x.int()).collect();
                    self.log(Ev::ArrSet(v.clone()));
                    self.host.arr = v;
                }
                Ok(V::Unit)
            }
        }
    }
    fn record(&mut self, v: &[(String, E)]) -> R<V> {
        let mut out = vec![];
        for (n, e) in v {
            let x = self.eval(e)?;
            out.push((n.clone(), x));
        }
        out.sort_by(|a, b| a.0.cmp(&b.0));
        Ok(V::Rec(out))
    }
    fn call(&mut self, c: &Callee, first: Option<&E>, rest: &[E]) -> R<V> {
        let args: Vec<&E> = first.into_iter().chain(rest.iter()).collect();
        let fun = match c {
            Callee::Fn(i) | Callee::Method(_, i) => Rc::new(Fun::Named(*i)),
            Callee::Std(n) => Rc::new(Fun::Std(n)),
            Callee::Val(e) => match self.eval(e)? {
                V::Fun(f) => f,
                v => panic!("model: call of {v:?}"),
            },
        };
        let refs: Vec<bool> = match &*fun {
            Fun::Named(i) => self.p.funs[*i].params.iter().map(|p| p.1 == Pass::Ref).collect(),
            Fun::Clos(l, _) => l.params.iter().map(|p| p.1).collect(),
            Fun::Std(n) => {
                let m = matches!(
                    *n,
                    "array_append" | "array_prepend" | "array_pop_back" | "array_pop_front" | "string_push_str" | "sort" | "reverse"
                );
                (0..args.len()).map(|i| m && i == 0).collect()
            }
        };
        let mut got = vec![];
        for (a, r) in args.iter().zip(&refs) {
            got.push(if *r { Arg::Ref(self.place(a)?) } else { Arg::Val(self.eval(a)?) });
        }
        self.apply(&fun, got)
    }
    fn apply_vals(&mut self, f: &Rc<Fun>, args: Vec<V>) -> R<V> {
        self.apply(f, args.into_iter().map(Arg::Val).collect())
    }
    fn apply(&mut self, f: &Rc<Fun>, args: Vec<Arg>) -> R<V> {
        self.step(2)?;
        if self.depth >= self.max_depth {
            return Err(Ctl::Stop);
        }
        let p = self.p;
        let (params, body, env): (Vec<Var>, &E, &[(Var, V)]) = match &**f {
            Fun::Std(n) => return self.std(n, args),
            Fun::Named(i) => {
                let f = &p.funs[*i];
                (f.params.iter().map(|x| x.0).collect(), &f.body, &[])
            }
            Fun::Clos(l, env) => (l.params.iter().map(|x| x.0).collect(), &l.body, env),
        };
        let saved = std::mem::take(&mut self.env);
        let loops = std::mem::take(&mut self.loops);
        self.depth += 1;
        let r = self.scoped(|s| {
            for (v, val) in env {
                s.bind(*v, val.clone());
            }
            for (x, a) in params.iter().zip(args) {
                match a {
                    Arg::Val(v) => s.bind(*x, v),
                    Arg::Ref(p) => {
                        s.env.insert(*x, p);
                    }
                }
            }
            s.eval(body)
        });
        self.depth -= 1;
        self.env = saved;
        self.loops = loops;
        match r {
            Err(Ctl::Return(v)) => Ok(v),
            Err(Ctl::Break(..) | Ctl::Continue(_)) => panic!("model: jump out of a function"),
            r => r,
        }
    }
    fn std(&mut self, n: &str, args: Vec<Arg>) -> R<V> {
        let mut it = args.into_iter();
        let mut val = || match it.next() {
            Some(Arg::Val(v)) => v,
            a => panic!("model: {n} argument {a:?}"),
        };
        let fail = |t: &str| Err(Ctl::Fail(t.into()));
        match n {
            "idiv" | "rem" | "mod" | "idiv_euclid" => {
                let (a, b) = (val().int(), val().int());
                if b == 0 {
                    return fail(if n.starts_with("idiv") { "DivisionByZero" } else { "RemainderByZero" });
                }
                Ok(V::Int(match n {
                    "idiv" => a.wrapping_div(b),
                    "rem" => a.wrapping_rem(b),
                    "mod" => a.wrapping_rem_euclid(b),
                    _ => a.wrapping_div_euclid(b),
                }))
            }
            "add" => Self::binop(Op::Add, val(), val()),
            "sub" => Self::binop(Op::Sub, val(), val()),
            "mul" => Self::binop(Op::Mul, val(), val()),
            "abs" => Ok(V::Int(val().int().wrapping_abs())),
            "min" => {
                let (a, b) = (val(), val());
                Ok(if Self::compare(&a, &b).is_le() { a } else { b })
            }
            "max" => {
                let (a, b) = (val(), val());
                Ok(if Self::compare(&a, &b).is_ge() { a } else { b })
            }
            "len" => Ok(V::Int(match val() {
                V::Arr(a) => a.len() as i64,
                V::Str(s) => s.chars().count() as i64,
                v => panic!("model: len of {v:?}"),
            })),
            "concat" => match (val(), val()) {
                (V::Str(a), V::Str(b)) => Ok(V::Str(a + &b)),
                (V::Arr(mut a), V::Arr(b)) => {
                    self.step(3 * (a.len() + b.len()) as u64)?;
                    a.extend(b);
                    Ok(V::Arr(a))
                }
                (a, b) => panic!("model: concat {a:?} {b:?}"),
            },
            "to_string" => Ok(V::Str(val().text())),
            "panic" => {
                let m = val().text();
                Err(Ctl::Fail(format!("Aborted: {m}")))
            }
            "reversed" => {
                let mut a = val().arr();
                self.step(4 * a.len() as u64)?;
                a.reverse();
                Ok(V::Arr(a))
            }
            "sorted" => {
                let mut a = val().arr();
                self.step((a.len() * a.len()) as u64 * 5)?;
                a.sort_by(Self::compare);
                Ok(V::Arr(a))
            }
            "map" | "filter" | "any" | "all" => {
                let a = val().arr();
                let V::Fun(f) = val() else { panic!() };
                let mut out = vec![];
                for x in a {
                    self.step(5)?;
                    let y = self.apply_vals(&f, vec![x.clone()])?;
                    match n {
                        "map" => out.push(y),
                        "filter" => {
                            if y.bool() {
                                out.push(x)
                            }
                        }
                        "any" => {
                            if y.bool() {
                                return Ok(V::Bool(true));
                            }
                        }
                        _ => {
                            if !y.bool() {
                                return Ok(V::Bool(false));
                            }
                        }
                    }
                }
                Ok(match n {
                    "any" => V::Bool(false),
                    "all" => V::Bool(true),
                    _ => V::Arr(out),
                })
            }
            "fold" => {
                let a = val().arr();
                let mut acc = val();
                let V::Fun(f) = val() else { panic!() };
                for x in a {
                    self.step(5)?;
                    acc = self.apply_vals(&f, vec![acc, x])?;
                }
                Ok(acc)
            }
            "array_append" | "array_prepend" | "array_pop_back" | "array_pop_front" | "string_push_str" | "sort" | "reverse" => {
                let Some(Arg::Ref(p)) = it.next() else { panic!("model: {n} needs a place") };
                let arg = it.next().map(|a| match a {
                    Arg::Val(v) => v,
                    a => panic!("model: {n} argument {a:?}"),
                });
                self.step(5)?;
                match (n, self.at(&p), arg) {
                    ("array_append", V::Arr(a), Some(v)) => {
                        a.push(v);
                        Ok(V::Unit)
                    }
                    ("array_prepend", V::Arr(a), Some(v)) => {
                        a.insert(0, v);
                        Ok(V::Unit)
                    }
                    ("array_pop_back", V::Arr(a), _) => Ok(a.pop().map(V::some).unwrap_or(V::none())),
                    ("array_pop_front", V::Arr(a), _) => {
                        Ok(if a.is_empty() { V::none() } else { V::some(a.remove(0)) })
                    }
                    ("string_push_str", V::Str(s), Some(V::Str(t))) => {
                        s.push_str(&t);
                        Ok(V::Unit)
                    }
                    ("sort", V::Arr(a), _) => {
                        a.sort_by(Self::compare);
                        Ok(V::Unit)
                    }
                    ("reverse", V::Arr(a), _) => {
                        a.reverse();
                        Ok(V::Unit)
                    }
                    (n, v, _) => panic!("model: {n} on {v:?}"),
                }
            }
            "host::get" => {
                let k = val().int();
                self.log(Ev::Get(k));
                Ok(V::Int(self.host.cells[cell(k)]))
            }
            "host::put" => {
                let (k, v) = (val().int(), val().int());
                self.log(Ev::Put(k, v));
                self.host.cells[cell(k)] = v;
                Ok(V::Unit)
            }
            "host::swap" => {
                let (k, v) = (val().int(), val().int());
                self.log(Ev::Swap(k, v));
                Ok(V::Int(std::mem::replace(&mut self.host.cells[cell(k)], v)))
            }
            "host::say" => {
                let s = val().text();
                self.log(Ev::Say(s));
                Ok(V::Unit)
            }
            "host::tick" => {
                self.log(Ev::Tick);
                self.host.ticks += 1;
                Ok(V::Int(self.host.ticks))
            }
            "host::check" => {
                let v = val().int();
                self.log(Ev::Check(v));
                if v < 0 { fail("InvalidArgument: negative") } else { Ok(V::Int(v)) }
            }
            "host::need" => {
                let v = val().int();
                if v < 0 { fail("InvalidArgument: needed") } else { Ok(V::Int(v)) }
            }
            "host::twice" => Ok(V::Int(val().int().wrapping_mul(2))),
            "host::make" => Ok(V::Tracked(val().int())),
            "host::id" => match val() {
                V::Tracked(i) => Ok(V::Int(i)),
                v => panic!("model: id of {v:?}"),
            },
            n => panic!("model: unknown {n}"),
        }
    }
}


#[derive(Debug)]
enum Arg {
    Val(V),
    Ref(Place),
}

fn finite(f: f64) -> R<f64> {
    // Programs keep floats small; a non-finite result would be a flaw of the generator.
    if f.is_finite() { Ok(f) } else { Err(Ctl::Stop) }
}

pub fn range_items(a: i64, b: i64, incl: bool) -> Vec<i64> {
    let mut v = vec![];
    let (mut i, step) = (a as i128, if a <= b { 1 } else { -1 });
    let (b, mut left) = (b as i128, 2000);
    while left > 0 && (i - b) * step < if incl { 1 } else { 0 } {
        v.push(i as i64);
        i += step;
        left -= 1;
    }
    v
}

/// Variables mentioned in an expression.
pub fn free(e: &E, out: &mut Vec<Var>) {
    visit(e, &mut |e| {
        if let E::Var(v) = e {
            out.push(*v);
        }
        if let E::FStr(ps) = e {
            for p in ps {
                if let Piece::Var(v) = p {
                    out.push(*v);
                }
            }
        }
    });
}

pub fn visit(e: &E, f: &mut dyn FnMut(&E)) {
    f(e);
    for c in children(e) {
        visit(c, f);
    }
}
pub fn children(e: &E) -> Vec<&E> {
    let mut v: Vec<&E> = vec![];
    fn callee<'e>(c: &'e Callee, v: &mut Vec<&'e E>) {
        if let Callee::Val(e) = c {
            v.push(e)
        }
    }
    match e {
        E::FnRef(c) => callee(c, &mut v),
        E::Neg(x) | E::Not(x) | E::Cast(x, _) | E::Typed(x, _) | E::Paren(x) | E::Some(x) | E::Field(x, _) | E::Return(x)
        | E::PropSet(_, x) => v.push(x),
        E::Bin(_, a, b) | E::Index(a, b) | E::Range(a, b, _) | E::Assign(a, b) | E::AssignOp(_, a, b) | E::For(_, a, b) => {
            v.push(a);
            v.push(b);
        }
        E::Tup(x) | E::Arr(x) | E::Ctor(_, _, x) => v.extend(x.iter()),
        E::Rec(x) | E::CtorRec(_, _, x) => v.extend(x.iter().map(|e| &e.1)),
        E::If(c, t, e) => {
            v.push(c);
            v.push(t);
            if let Some(e) = e {
                v.push(e)
            }
        }
        E::Match(s, arms, d) => {
            v.push(s);
            v.extend(arms.iter().map(|a| &a.1));
            if let Some(e) = d {
                v.push(e)
            }
        }
        E::Block(s, l) => {
            for s in s {
                match s {
                    Stmt::Let(_, _, e) | Stmt::Expr(e) => v.push(e),
                }
            }
            if let Some(e) = l {
                v.push(e)
            }
        }
        E::Loop(_, b) => v.push(b),
        E::Break(_, Some(x)) => v.push(x),
        E::Call(c, args) => {
            callee(c, &mut v);
            v.extend(args.iter());
        }
        E::Pipe(x, c, args) => {
            v.push(x);
            callee(c, &mut v);
            v.extend(args.iter());
        }
        E::Lambda(l) => v.push(&l.body),
        _ => {}
    }
    v
}
