//! mutate CRATE_DIR START_ID OUT.tsv : rewrites every src/*.rs of a scratch copy of
//! a crate so that mutant N is active when MUT=N, and lists the mutants.
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::io::Write;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct M {
    next: usize,
    file: String,
    out: Vec<String>,
    depth_off: usize,
}
impl M {
    fn id(&mut self, line: usize, what: &str) -> proc_macro2::Literal {
        let i = self.next;
        self.next += 1;
        self.out.push(format!("{i}\t{}:{line}\t{what}", self.file));
        proc_macro2::Literal::i64_unsuffixed(i as i64)
    }
}
fn short(t: &impl ToTokens) -> String {
    let s = t.to_token_stream().to_string();
    s.chars().take(90).collect()
}
fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => has_let(&b.left) || has_let(&b.right),
        Expr::Paren(p) => has_let(&p.expr),
        _ => false,
    }
}
fn parse(t: TokenStream) -> Expr {
    parse2(t).unwrap()
}
fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.to_token_stream().to_string().replace(' ', "").contains("cfg(test)") || a.path().is_ident("test"))
}
impl VisitMut for M {
    fn visit_item_mut(&mut self, i: &mut Item) {
        match i {
            Item::Const(_) | Item::Static(_) | Item::Macro(_) | Item::Enum(_) | Item::Struct(_) | Item::Type(_) => {}
            Item::Mod(m) if is_test(&m.attrs) => {}
            Item::Fn(f) if f.sig.constness.is_some() || is_test(&f.attrs) => {}
            Item::Impl(im) if im.trait_.as_ref().is_some_and(|(_, p, _)| {
                let n = p.segments.last().unwrap().ident.to_string();
                n == "Error" || n == "Debug" || (n == "Display" && im.self_ty.to_token_stream().to_string().ends_with("Error"))
            }) => {}
            _ => visit_mut::visit_item_mut(self, i),
        }
    }
    fn visit_impl_item_mut(&mut self, i: &mut ImplItem) {
        match i {
            ImplItem::Const(_) => {}
            ImplItem::Fn(f) if f.sig.constness.is_some() => {}
            _ => visit_mut::visit_impl_item_mut(self, i),
        }
    }
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_generic_argument_mut(&mut self, _: &mut GenericArgument) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_expr_repeat_mut(&mut self, _: &mut ExprRepeat) {}
    fn visit_expr_const_mut(&mut self, _: &mut ExprConst) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            let line = s.span().start().line;
            let txt = short(s);
            // a dropped statement
            let drop = matches!(s, Stmt::Expr(Expr::MethodCall(_) | Expr::Call(_), Some(_)))
                || matches!(s, Stmt::Expr(Expr::Assign(a), Some(_)) if matches!(*a.left, Expr::Field(_)) || matches!(*a.right, Expr::Lit(_)))
                || matches!(s, Stmt::Expr(Expr::Binary(b), Some(_)) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_)))
                || matches!(s, Stmt::Expr(Expr::Try(_), Some(_)));
            let brk = matches!(s, Stmt::Expr(Expr::Continue(_) | Expr::Break(_), _));
            self.visit_stmt_mut(s);
            if drop {
                let id = self.id(line, &format!("drop statement: {txt}"));
                if let Stmt::Expr(e, Some(_)) = s {
                    let e = e.clone();
                    *s = Stmt::Expr(parse(quote!(if !crate::mcmut::on(#id) { #e; })), None);
                }
            }
            let _ = brk;
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let line = e.span().start().line;
        let txt = short(e);
        match e {
            Expr::If(i) => {
                let l = has_let(&i.cond);
                let ct = short(&i.cond);
                visit_mut::visit_expr_mut(self, &mut i.cond);
                self.visit_block_mut(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    // else-if chains: visit the nested if directly
                    self.visit_expr_mut(x);
                    if !matches!(**x, Expr::If(_) | Expr::Block(_)) {
                        let y = x.clone();
                        **x = parse(quote!({ #y }));
                    }
                }
                if !l {
                    let c = &i.cond;
                    let id = self.id(line, &format!("if never: {ct}"));
                    let c2 = parse(quote!((#c) && !crate::mcmut::on(#id)));
                    let id = self.id(line, &format!("if always: {ct}"));
                    *i.cond = parse(quote!((#c2) || crate::mcmut::on(#id)));
                }
            }
            Expr::Binary(b) => {
                if has_let(&Expr::Binary(b.clone())) {
                    visit_mut::visit_expr_binary_mut(self, b);
                    return;
                }
                let (lt, rt) = (short(&b.left), short(&b.right));
                visit_mut::visit_expr_binary_mut(self, b);
                let (l, r) = (&b.left, &b.right);
                let new = match b.op {
                    BinOp::And(_) => {
                        let (x, y) = (self.id(line, &format!("&& without left: {lt}")), self.id(line, &format!("&& without right: {rt}")));
                        quote!(((crate::mcmut::on(#x) || (#l)) && (crate::mcmut::on(#y) || (#r))))
                    }
                    BinOp::Or(_) => {
                        let (x, y) = (self.id(line, &format!("|| without left: {lt}")), self.id(line, &format!("|| without right: {rt}")));
                        quote!(((!crate::mcmut::on(#x) && (#l)) || (!crate::mcmut::on(#y) && (#r))))
                    }
                    BinOp::Eq(_) | BinOp::Ne(_) => {
                        let x = self.id(line, &format!("negated: {txt}"));
                        let op = &b.op;
                        quote!((((#l) #op (#r)) ^ crate::mcmut::on(#x)))
                    }
                    BinOp::Lt(_) | BinOp::Gt(_) | BinOp::Le(_) | BinOp::Ge(_) => {
                        let x = self.id(line, &format!("boundary: {txt}"));
                        let op = &b.op;
                        let alt: BinOp = match b.op {
                            BinOp::Lt(_) => parse_quote!(<=),
                            BinOp::Le(_) => parse_quote!(<),
                            BinOp::Gt(_) => parse_quote!(>=),
                            _ => parse_quote!(>),
                        };
                        quote!((if crate::mcmut::on(#x) { (#l) #alt (#r) } else { (#l) #op (#r) }))
                    }
                    _ => return,
                };
                *e = parse(new);
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => {
                visit_mut::visit_expr_unary_mut(self, u);
            }
            Expr::Lit(ExprLit { lit: Lit::Bool(_), .. }) => {
                let x = self.id(line, &format!("flipped: {txt}"));
                let l = e.clone();
                *e = parse(quote!((#l ^ crate::mcmut::on(#x))));
            }
            Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) if n.suffix().is_empty() && self.depth_off == 0 => {
                let x = self.id(line, &format!("plus one: {txt}"));
                let l = e.clone();
                *e = parse(quote!((if crate::mcmut::on(#x) { #l + 1 } else { #l })));
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let is_bool = ["is_some", "is_none", "is_empty", "is_ok", "is_err", "eq_ignore_ascii_case", "contains", "contains_key", "starts_with", "ends_with", "any", "all"].contains(&name.as_str());
                let lower = ["to_ascii_lowercase", "trim"].contains(&name.as_str());
                visit_mut::visit_expr_method_call_mut(self, m);
                if is_bool {
                    let x = self.id(line, &format!("negated: {txt}"));
                    let l = e.clone();
                    *e = parse(quote!(((#l) ^ crate::mcmut::on(#x))));
                }
                let _ = lower;
            }
            Expr::Macro(_) => {}
            Expr::Range(_) => visit_mut::visit_expr_mut(self, e),
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = &mut a.guard {
                        if !has_let(g) {
                            self.visit_expr_mut(g);
                        }
                    }
                    self.visit_expr_mut(&mut a.body);
                }
            }
            Expr::While(w) => {
                if !has_let(&w.cond) {
                    self.visit_expr_mut(&mut w.cond);
                }
                self.visit_block_mut(&mut w.body);
            }
            Expr::Let(l) => self.visit_expr_mut(&mut l.expr),
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
fn files(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    for e in std::fs::read_dir(d).unwrap().flatten() {
        if e.path().is_dir() {
            files(&e.path(), out)
        } else if e.path().extension().is_some_and(|x| x == "rs") {
            out.push(e.path())
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let dir = std::path::Path::new(&a[1]).join("src");
    let mut fs = Vec::new();
    files(&dir, &mut fs);
    fs.sort();
    let mut next = a[2].parse().unwrap();
    let mut o = std::fs::OpenOptions::new().append(true).create(true).open(&a[3]).unwrap();
    for f in fs {
        let src = std::fs::read_to_string(&f).unwrap();
        let mut ast = parse_file(&src).unwrap();
        let mut m = M { next, file: f.display().to_string(), out: vec![], depth_off: 0 };
        m.visit_file_mut(&mut ast);
        next = m.next;
        for l in &m.out {
            writeln!(o, "{l}").unwrap();
        }
        let mut text = ast.to_token_stream().to_string();
        if f.ends_with("src/lib.rs") {
            text.push_str("\n#[doc(hidden)] pub mod mcmut { pub fn on(i: i64) -> bool { static M: std::sync::OnceLock<i64> = std::sync::OnceLock::new(); *M.get_or_init(|| std::env::var(\"MUT\").ok().and_then(|s| s.parse().ok()).unwrap_or(-1)) == i } }\n");
        }
        std::fs::write(&f, text).unwrap();
    }
    println!("{next}");
}
