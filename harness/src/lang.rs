//! Abstract programs, independent of the compiler's own tree, and their source text.
use std::fmt::Write;
use std::rc::Rc;

pub type Var = usize;
pub type B<T> = Box<T>;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Unit,
    Bool,
    Int,
    Float,
    Str,
    Tracked,
    Tup(Vec<Ty>),
    Rec(Vec<(String, Ty)>),
    Arr(B<Ty>),
    Opt(B<Ty>),
    Adt(usize),
    /// Parameters (by mutable reference or not) and result.
    Fun(Vec<(bool, Ty)>, B<Ty>),
}

impl Ty {
    pub fn arr(t: Ty) -> Ty {
        Ty::Arr(Box::new(t))
    }
    pub fn opt(t: Ty) -> Ty {
        Ty::Opt(Box::new(t))
    }
    pub fn has_fun(&self, p: &Prog) -> bool {
        match self {
            Ty::Fun(..) => true,
            Ty::Tup(v) => v.iter().any(|t| t.has_fun(p)),
            Ty::Rec(v) => v.iter().any(|t| t.1.has_fun(p)),
            Ty::Arr(t) | Ty::Opt(t) => t.has_fun(p),
            Ty::Adt(i) => p.adts[*i].variants.iter().any(|v| match &v.1 {
                Payload::Unit => false,
                Payload::Tup(v) => v.iter().any(|t| t.has_fun(p)),
                Payload::Rec(v) => v.iter().any(|t| t.1.has_fun(p)),
            }),
            _ => false,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Payload {
    Unit,
    Tup(Vec<Ty>),
    Rec(Vec<(String, Ty)>),
}

#[derive(Clone, Debug)]
pub struct Adt {
    pub name: String,
    pub is_struct: bool,
    pub variants: Vec<(String, Payload)>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    And,
    Or,
}

impl Op {
    pub fn text(self) -> &'static str {
        match self {
            Op::Add => "+",
            Op::Sub => "-",
            Op::Mul => "*",
            Op::Div => "/",
            Op::Eq => "==",
            Op::Ne => "!=",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Gt => ">",
            Op::Ge => ">=",
            Op::And => "and",
            Op::Or => "or",
        }
    }
    pub fn level(self) -> u8 {
        match self {
            Op::Or => 3,
            Op::And => 4,
            Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::Gt | Op::Ge => 5,
            Op::Add | Op::Sub => 6,
            Op::Mul | Op::Div => 7,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Lit {
    Unit,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
}

#[derive(Clone, Debug)]
pub enum Callee {
    /// A function of the program, by index.
    Fn(usize),
    /// A method of a program trait: the trait, the implementation's function.
    Method(usize, usize),
    /// A function of the standard library or of the host.
    Std(&'static str),
    Val(B<E>),
}

#[derive(Clone, Debug)]
pub enum Fld {
    Pos(usize),
    Name(String),
}

#[derive(Clone, Debug)]
pub struct Lambda {
    pub params: Vec<(Var, bool)>,
    pub body: E,
}

#[derive(Clone, Debug)]
pub enum Piece {
    Text(String),
    Var(Var),
}

#[derive(Clone, Debug)]
pub enum E {
    Lit(Lit),
    Var(Var),
    FnRef(Callee),
    Neg(B<E>),
    Not(B<E>),
    Bin(Op, B<E>, B<E>),
    Cast(B<E>, Ty),
    Typed(B<E>, Ty),
    Paren(B<E>),
    Tup(Vec<E>),
    Rec(Vec<(String, E)>),
    Arr(Vec<E>),
    /// Empty array or `None` at a type.
    EmptyArr(Ty),
    None(Ty),
    Some(B<E>),
    Ctor(usize, usize, Vec<E>),
    /// Record-style constructor with fields in source order.
    CtorRec(usize, usize, Vec<(String, E)>),
    Field(B<E>, Fld),
    Index(B<E>, B<E>),
    If(B<E>, B<E>, Option<B<E>>),
    Match(B<E>, Vec<(MPat, E)>, Option<B<E>>),
    Block(Vec<Stmt>, Option<B<E>>),
    Loop(Option<usize>, B<E>),
    For(Pat, B<E>, B<E>),
    Range(B<E>, B<E>, bool),
    Break(Option<usize>, Option<B<E>>),
    Continue(Option<usize>),
    Return(B<E>),
    Assign(B<E>, B<E>),
    AssignOp(Op, B<E>, B<E>),
    Call(Callee, Vec<E>),
    Pipe(B<E>, Callee, Vec<E>),
    Lambda(Rc<Lambda>),
    FStr(Vec<Piece>),
    PropGet(&'static str),
    PropSet(&'static str, B<E>),
}

#[derive(Clone, Debug)]
pub enum Stmt {
    Let(Pat, Option<Ty>, E),
    Expr(E),
}

#[derive(Clone, Debug)]
pub enum Pat {
    Var(Var),
    Wild,
    Tup(Vec<Pat>),
    /// Field, binding, and whether other fields are left out.
    Rec(Vec<(String, Pat)>),
    StructTup(usize, Vec<Pat>, bool),
    StructRec(usize, Vec<(String, Pat)>, bool),
}

#[derive(Clone, Debug)]
pub enum MPat {
    Lit(Lit),
    Tup(Vec<MPat>),
    RecLit(Vec<(String, MPat)>),
    Some(Var),
    None,
    Tag(usize, usize, bool, Vec<Var>),
    /// Adt, variant, qualified, bound fields, rest.
    TagRec(usize, usize, bool, Vec<(String, Var)>, bool),
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub ty: Ty,
    pub mutable: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pass {
    Val,
    /// `mut x`: a private mutable copy.
    Local,
    Ref,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(Var, Pass)>,
    pub ret: Ty,
    pub body: E,
    /// Print types of parameters and result.
    pub annotate: bool,
    pub inline_never: bool,
    /// Implementation of a trait method: trait and self type.
    pub method: Option<(usize, Ty)>,
}

#[derive(Clone, Debug)]
pub struct Trait {
    pub name: String,
    pub method: String,
    /// Types of the parameters after the first, and the result.
    pub extra: Vec<Ty>,
    pub ret: Ty,
    /// The effects the method is declared to have.
    pub effects: &'static str,
    pub impls: Vec<usize>,
}

#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub vars: Vec<VarInfo>,
    pub adts: Vec<Adt>,
    pub traits: Vec<Trait>,
    pub funs: Vec<Func>,
    /// The module's final expression; its blocks' scopes are not printed.
    pub main: Option<E>,
    pub main_ty: Option<Ty>,
    /// Text put before everything else.
    pub extra: String,
}

pub fn int_text(i: i64) -> String {
    if i == i64::MIN { "(-9223372036854775807 - 1)".into() } else { i.to_string() }
}

pub fn str_lit(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        esc_char(&mut o, c);
    }
    o.push('"');
    o
}
fn esc_char(o: &mut String, c: char) {
    match c {
        '"' => o.push_str("\\\""),
        '\\' => o.push_str("\\\\"),
        '\n' => o.push_str("\\n"),
        '\t' => o.push_str("\\t"),
        '\r' => o.push_str("\\r"),
        c if (c as u32) < 0x20 => {
            let _ = write!(o, "\\u{{{:x}}}", c as u32);
        }
        c => o.push(c),
    }
}

pub fn float_text(f: f64) -> String {
    // No scientific notation in the language.
    let s = format!("{f}");
    if s.contains('.') { s } else { format!("{s}.0") }
}

impl Prog {
    pub fn new_var(&mut self, name: &str, ty: Ty, mutable: bool) -> Var {
        self.vars.push(VarInfo { name: name.into(), ty, mutable });
        self.vars.len() - 1
    }
    pub fn ty(&self, t: &Ty) -> String {
        match t {
            Ty::Unit => "()".into(),
            Ty::Bool => "bool".into(),
            Ty::Int => "int".into(),
            Ty::Float => "float".into(),
            Ty::Str => "string".into(),
            Ty::Tracked => "_".into(),
            Ty::Tup(v) => {
                let s = v.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", ");
                if v.len() == 1 { format!("({s},)") } else { format!("({s})") }
            }
            Ty::Rec(v) => format!(
                "{{ {} }}",
                v.iter().map(|(n, t)| format!("{n}: {}", self.ty(t))).collect::<Vec<_>>().join(", ")
            ),
            Ty::Arr(t) => format!("[{}]", self.ty(t)),
            Ty::Opt(t) => format!("Option<{}>", self.ty(t)),
            Ty::Adt(i) => self.adts[*i].name.clone(),
            Ty::Fun(p, r) => format!(
                "({}) -> {}",
                p.iter()
                    .map(|(m, t)| format!("{}{}", if *m { "&mut " } else { "" }, self.ty(t)))
                    .collect::<Vec<_>>()
                    .join(", "),
                self.ty(r)
            ),
        }
    }
    pub fn adt_decl(&self, i: usize) -> String {
        let a = &self.adts[i];
        let payload = |p: &Payload| match p {
            Payload::Unit => String::new(),
            Payload::Tup(v) => format!("({})", v.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", ")),
            Payload::Rec(v) => format!(
                " {{ {} }}",
                v.iter().map(|(n, t)| format!("{n}: {}", self.ty(t))).collect::<Vec<_>>().join(", ")
            ),
        };
        if a.is_struct {
            let p = payload(&a.variants[0].1);
            format!("struct {}{}", a.name, if p.is_empty() { " {}".to_string() } else { p })
        } else {
            format!(
                "enum {} {{ {} }}",
                a.name,
                a.variants.iter().map(|(n, p)| format!("{n}{}", payload(p))).collect::<Vec<_>>().join(", ")
            )
        }
    }
    /// Declarations in order, then the final expression.
    pub fn decls(&self) -> Vec<String> {
        let mut d = vec![];
        for i in 0..self.adts.len() {
            d.push(self.adt_decl(i));
        }
        for t in &self.traits {
            let extra: String =
                t.extra.iter().enumerate().map(|(i, t)| format!(", k{i}: {}", self.ty(t))).collect();
            d.push(format!("trait {}<Self> {{ fn {}(x: Self{extra}) -> {} ! {}; }}", t.name, t.method, self.ty(&t.ret), t.effects));
        }
        for f in &self.funs {
            match &f.method {
                Some((t, self_ty)) => d.push(format!(
                    "impl {} for {} {{\n{}\n}}",
                    self.traits[*t].name,
                    self.ty(self_ty),
                    self.func(f)
                )),
                None => d.push(self.func(f)),
            }
        }
        d
    }
    pub fn text(&self) -> String {
        let mut o = self.extra.clone();
        for d in self.decls() {
            o.push_str(&d);
            o.push('\n');
        }
        o.push_str(&self.main_text());
        o
    }
    pub fn main_text(&self) -> String {
        match &self.main {
            None => String::new(),
            Some(E::Block(stmts, last)) => {
                let mut o = String::new();
                self.stmts(&mut o, stmts, last, 0);
                o
            }
            Some(e) => self.expr(e),
        }
    }
    pub fn func(&self, f: &Func) -> String {
        let mut o = String::new();
        if f.inline_never {
            o.push_str("#[inline(never)]\n");
        }
        let _ = write!(o, "fn {}(", f.name);
        for (i, (v, p)) in f.params.iter().enumerate() {
            if i > 0 {
                o.push_str(", ");
            }
            if *p == Pass::Local {
                o.push_str("mut ");
            }
            o.push_str(&self.vars[*v].name);
            if f.annotate && self.vars[*v].ty != Ty::Tracked {
                let _ = write!(o, ": {}{}", if *p == Pass::Ref { "&mut " } else { "" }, self.ty(&self.vars[*v].ty));
            }
        }
        o.push(')');
        if f.annotate && !matches!(f.ret, Ty::Tracked) {
            let _ = write!(o, " -> {}", self.ty(&f.ret));
        }
        o.push(' ');
        match &f.body {
            b @ E::Block(..) => self.p(&mut o, b, 0, 0),
            b => {
                o.push_str("{ ");
                self.p(&mut o, b, 0, 0);
                o.push_str(" }");
            }
        }
        o
    }
    pub fn expr(&self, e: &E) -> String {
        let mut o = String::new();
        self.p(&mut o, e, 0, 0);
        o
    }
    fn name(&self, v: Var) -> &str {
        &self.vars[v].name
    }
    fn callee(&self, o: &mut String, c: &Callee, ind: usize) {
        match c {
            Callee::Fn(i) => o.push_str(&self.funs[*i].name),
            Callee::Method(t, _) => o.push_str(&self.traits[*t].method),
            Callee::Std(n) => o.push_str(n),
            Callee::Val(e) => self.p(o, e, 10, ind),
        }
    }
    fn list(&self, o: &mut String, v: &[E], ind: usize) {
        for (i, e) in v.iter().enumerate() {
            if i > 0 {
                o.push_str(", ");
            }
            self.p(o, e, 0, ind);
        }
    }
    fn pat(&self, p: &Pat) -> String {
        let var = |v: Var| {
            format!("{}{}", if self.vars[v].mutable { "mut " } else { "" }, self.name(v))
        };
        let fields = |fs: &Vec<(String, Pat)>, rest: bool| {
            let mut parts: Vec<String> = fs
                .iter()
                .map(|(n, p)| match p {
                    Pat::Var(v) if self.name(*v) == n => var(*v),
                    p => format!("{n}: {}", self.pat(p)),
                })
                .collect();
            if rest {
                parts.push("..".into());
            }
            parts.join(", ")
        };
        match p {
            Pat::Var(v) => var(*v),
            Pat::Wild => "_".into(),
            Pat::Tup(v) => {
                let s = v.iter().map(|p| self.pat(p)).collect::<Vec<_>>().join(", ");
                if v.len() == 1 { format!("({s},)") } else { format!("({s})") }
            }
            Pat::Rec(fs) => format!("{{ {} }}", fields(fs, false)),
            Pat::StructTup(a, v, rest) => {
                let mut parts: Vec<String> = v.iter().map(|p| self.pat(p)).collect();
                if *rest {
                    parts.push("..".into());
                }
                format!("{}({})", self.adts[*a].name, parts.join(", "))
            }
            Pat::StructRec(a, fs, rest) => format!("{} {{ {} }}", self.adts[*a].name, fields(fs, *rest)),
        }
    }
    fn mpat(&self, p: &MPat) -> String {
        match p {
            MPat::Lit(Lit::Int(i)) => i.to_string(),
            MPat::Lit(l) => self.expr(&E::Lit(l.clone())),
            MPat::Tup(v) => {
                let s = v.iter().map(|p| self.mpat(p)).collect::<Vec<_>>().join(", ");
                if v.len() == 1 { format!("({s},)") } else { format!("({s})") }
            }
            MPat::RecLit(v) => {
                format!("{{ {} }}", v.iter().map(|(n, p)| format!("{n}: {}", self.mpat(p))).collect::<Vec<_>>().join(", "))
            }
            MPat::Some(v) => format!("Some({})", self.name(*v)),
            MPat::None => "None".into(),
            MPat::Tag(a, i, q, vs) => {
                let adt = &self.adts[*a];
                let mut s = if *q { format!("{}::{}", adt.name, adt.variants[*i].0) } else { adt.variants[*i].0.clone() };
                if !vs.is_empty() {
                    let _ = write!(s, "({})", vs.iter().map(|v| self.name(*v).to_string()).collect::<Vec<_>>().join(", "));
                }
                s
            }
            MPat::TagRec(a, i, q, fs, rest) => {
                let adt = &self.adts[*a];
                let mut parts: Vec<String> = fs.iter().map(|(n, _)| n.clone()).collect();
                if *rest {
                    parts.push("..".into());
                }
                let head = if *q { format!("{}::{}", adt.name, adt.variants[*i].0) } else { adt.variants[*i].0.clone() };
                format!("{head} {{ {} }}", parts.join(", "))
            }
        }
    }
    fn stmts(&self, o: &mut String, stmts: &[Stmt], last: &Option<B<E>>, ind: usize) {
        let pad = "  ".repeat(ind);
        for s in stmts {
            o.push_str(&pad);
            match s {
                Stmt::Let(p, t, e) => {
                    let _ = write!(o, "let {}", self.pat(p));
                    if let Some(t) = t {
                        let _ = write!(o, ": {}", self.ty(t));
                    }
                    o.push_str(" = ");
                    self.p(o, e, 0, ind);
                }
                Stmt::Expr(e) => self.p(o, e, 0, ind),
            }
            o.push_str(";\n");
        }
        if let Some(e) = last {
            o.push_str(&pad);
            self.p(o, e, 0, ind);
            o.push('\n');
        }
    }
    /// Blocks of branches: braces always, whatever the expression.
    fn braced(&self, o: &mut String, e: &E, ind: usize) {
        match e {
            E::Block(..) => self.p(o, e, 11, ind),
            e => {
                o.push_str("{ ");
                self.p(o, e, 0, ind);
                o.push_str(" }");
            }
        }
    }
    /// A condition, scrutinee or sequence: braces inside must be parenthesized.
    fn head(&self, o: &mut String, e: &E, ind: usize) {
        let mut s = String::new();
        self.p(&mut s, e, 1, ind);
        if s.contains('{') {
            let _ = write!(o, "({s})");
        } else {
            o.push_str(&s);
        }
    }
    fn level(e: &E) -> u8 {
        match e {
            E::Assign(..) | E::AssignOp(..) | E::Return(_) | E::Break(..) | E::Continue(_) | E::Lambda(_) | E::PropSet(..) => 0,
            E::Pipe(..) => 1,
            E::Range(..) => 2,
            E::Bin(op, ..) => op.level(),
            E::Cast(..) => 8,
            E::Neg(_) | E::Not(_) => 9,
            E::Lit(Lit::Int(i)) if *i < 0 && *i != i64::MIN => 9,
            E::Lit(Lit::Float(f)) if *f < 0.0 || (*f == 0.0 && f.is_sign_negative()) => 9,
            E::Call(..) | E::Field(..) | E::Index(..) => 10,
            // Parenthesized as the base of a suffix, by choice.
            E::If(..) | E::Match(..) | E::Block(..) | E::Loop(..) | E::For(..) => 9,
            _ => 11,
        }
    }
    fn p(&self, o: &mut String, e: &E, min: u8, ind: usize) {
        let lv = Self::level(e);
        let blockish = matches!(e, E::If(..) | E::Match(..) | E::Block(..) | E::Loop(..) | E::For(..));
        if lv < min && !(blockish && min == 11) {
            o.push('(');
            self.p(o, e, 0, ind);
            o.push(')');
            return;
        }
        match e {
            E::Lit(Lit::Unit) => o.push_str("()"),
            E::Lit(Lit::Bool(b)) => {
                let _ = write!(o, "{b}");
            }
            E::Lit(Lit::Int(i)) => o.push_str(&int_text(*i)),
            E::Lit(Lit::Float(f)) => o.push_str(&float_text(*f)),
            E::Lit(Lit::Str(s)) => o.push_str(&str_lit(s)),
            E::Var(v) => o.push_str(self.name(*v)),
            E::FnRef(c) => self.callee(o, c, ind),
            E::Neg(x) => {
                o.push('-');
                // `--` is fine lexically, but a negative literal under a minus is clearer in parentheses
                self.p(o, x, if matches!(**x, E::Lit(_) | E::Neg(_)) { 11 } else { 9 }, ind);
            }
            E::Not(x) => {
                o.push_str("not ");
                self.p(o, x, 9, ind);
            }
            E::Bin(op, a, b) => {
                let l = op.level();
                self.p(o, a, l, ind);
                let _ = write!(o, " {} ", op.text());
                self.p(o, b, l + 1, ind);
            }
            E::Cast(x, t) => {
                self.p(o, x, 8, ind);
                let _ = write!(o, " as {}", self.ty(t));
            }
            E::Typed(x, t) => {
                o.push('(');
                self.p(o, x, 0, ind);
                let _ = write!(o, ": {})", self.ty(t));
            }
            E::Paren(x) => {
                o.push('(');
                self.p(o, x, 0, ind);
                o.push(')');
            }
            E::Tup(v) => {
                o.push('(');
                self.list(o, v, ind);
                if v.len() == 1 {
                    o.push(',');
                }
                o.push(')');
            }
            E::Rec(v) => {
                o.push_str("{ ");
                for (i, (n, e)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    let _ = write!(o, "{n}: ");
                    self.p(o, e, 0, ind);
                }
                o.push_str(" }");
            }
            E::Arr(v) => {
                o.push('[');
                self.list(o, v, ind);
                o.push(']');
            }
            E::EmptyArr(t) => {
                let _ = write!(o, "([]: {})", self.ty(t));
            }
            E::None(t) => {
                let _ = write!(o, "(None: {})", self.ty(t));
            }
            E::Some(x) => {
                o.push_str("Some(");
                self.p(o, x, 0, ind);
                o.push(')');
            }
            E::Ctor(a, i, v) => {
                let adt = &self.adts[*a];
                o.push_str(&adt.name);
                if !adt.is_struct {
                    let _ = write!(o, "::{}", adt.variants[*i].0);
                }
                if matches!(adt.variants[*i].1, Payload::Tup(_)) {
                    o.push('(');
                    self.list(o, v, ind);
                    o.push(')');
                } else if adt.is_struct {
                    o.push_str(" {}");
                }
            }
            E::CtorRec(a, i, v) => {
                let adt = &self.adts[*a];
                o.push_str(&adt.name);
                if !adt.is_struct {
                    let _ = write!(o, "::{}", adt.variants[*i].0);
                }
                o.push(' ');
                self.p(o, &E::Rec(v.clone()), 11, ind);
            }
            E::Field(x, f) => {
                self.p(o, x, 10, ind);
                match f {
                    Fld::Pos(i) => {
                        let _ = write!(o, ".{i}");
                    }
                    Fld::Name(n) => {
                        let _ = write!(o, ".{n}");
                    }
                }
            }
            E::Index(x, i) => {
                self.p(o, x, 10, ind);
                o.push('[');
                self.p(o, i, 0, ind);
                o.push(']');
            }
            E::If(c, t, f) => {
                o.push_str("if ");
                self.head(o, c, ind);
                o.push(' ');
                self.braced(o, t, ind);
                if let Some(f) = f {
                    o.push_str(" else ");
                    match **f {
                        E::If(..) => self.p(o, f, 0, ind),
                        _ => self.braced(o, f, ind),
                    }
                }
            }
            E::Match(s, arms, d) => {
                o.push_str("match ");
                self.head(o, s, ind);
                o.push_str(" {\n");
                let pad = "  ".repeat(ind + 1);
                for (p, e) in arms {
                    let _ = write!(o, "{pad}{} => ", self.mpat(p));
                    self.p(o, e, 0, ind + 1);
                    o.push_str(",\n");
                }
                if let Some(d) = d {
                    let _ = write!(o, "{pad}_ => ");
                    self.p(o, d, 0, ind + 1);
                    o.push_str(",\n");
                }
                let _ = write!(o, "{}}}", "  ".repeat(ind));
            }
            E::Block(s, l) => {
                o.push_str("{\n");
                self.stmts(o, s, l, ind + 1);
                let _ = write!(o, "{}}}", "  ".repeat(ind));
            }
            E::Loop(label, b) => {
                if let Some(l) = label {
                    let _ = write!(o, "'l{l}: ");
                }
                o.push_str("loop ");
                self.braced(o, b, ind);
            }
            E::For(p, seq, b) => {
                let _ = write!(o, "for {} in ", self.pat(p));
                self.head(o, seq, ind);
                o.push(' ');
                self.braced(o, b, ind);
            }
            E::Range(a, b, incl) => {
                self.p(o, a, 9, ind);
                o.push_str(if *incl { "..=" } else { ".." });
                self.p(o, b, 9, ind);
            }
            E::Break(l, v) => {
                o.push_str("break");
                if let Some(l) = l {
                    let _ = write!(o, " 'l{l}");
                }
                if let Some(v) = v {
                    o.push(' ');
                    self.p(o, v, 1, ind);
                }
            }
            E::Continue(l) => {
                o.push_str("continue");
                if let Some(l) = l {
                    let _ = write!(o, " 'l{l}");
                }
            }
            E::Return(v) => {
                o.push_str("return ");
                self.p(o, v, 1, ind);
            }
            E::Assign(p, v) => {
                self.p(o, p, 1, ind);
                o.push_str(" = ");
                self.p(o, v, 1, ind);
            }
            E::AssignOp(op, p, v) => {
                self.p(o, p, 1, ind);
                let _ = write!(o, " {}= ", op.text());
                self.p(o, v, 1, ind);
            }
            E::Call(c, args) => {
                self.callee(o, c, ind);
                o.push('(');
                self.list(o, args, ind);
                o.push(')');
            }
            E::Pipe(x, c, args) => {
                self.p(o, x, 1, ind);
                o.push_str(" |> ");
                self.callee(o, c, ind);
                o.push('(');
                self.list(o, args, ind);
                o.push(')');
            }
            E::Lambda(l) => {
                o.push('|');
                o.push_str(&l.params.iter().map(|(v, _)| self.name(*v).to_string()).collect::<Vec<_>>().join(", "));
                o.push_str("| ");
                self.p(o, &l.body, 1, ind);
            }
            E::FStr(pieces) => {
                o.push_str("f\"");
                for p in pieces {
                    match p {
                        Piece::Text(s) => s.chars().for_each(|c| esc_char(o, c)),
                        Piece::Var(v) => {
                            let _ = write!(o, "{{{}}}", self.name(*v));
                        }
                    }
                }
                o.push('"');
            }
            E::PropGet(n) => {
                let _ = write!(o, "@hp::s.{n}");
            }
            E::PropSet(n, v) => {
                let _ = write!(o, "@hp::s.{n} = ");
                self.p(o, v, 1, ind);
            }
        }
    }
}
