//! refac FILE SITES: rewrites the sites (comma separated numbers, or "list") of one file without changing what it does.
use quote::{quote, ToTokens, format_ident};
use std::collections::HashSet;
use syn::{visit::Visit, visit_mut::{self, VisitMut}, *};

struct Flow { jump: bool, ret: bool, ques: bool }
impl<'a> Visit<'a> for Flow {
    fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.jump = true; }
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.jump = true; }
    fn visit_expr_return(&mut self, e: &'a ExprReturn) { self.ret = true; visit::visit_expr_return(self, e); }
    fn visit_expr_try(&mut self, e: &'a ExprTry) { self.ques = true; visit::visit_expr_try(self, e); }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn flow_b(b: &Block) -> Flow { let mut f = Flow { jump: false, ret: false, ques: false }; f.visit_block(b); f }
fn flow_e(b: &Expr) -> Flow { let mut f = Flow { jump: false, ret: false, ques: false }; f.visit_expr(b); f }
fn plain(f: Flow) -> bool { !f.jump && !f.ret && !f.ques }
fn is_let(e: &Expr) -> bool {
    match e { Expr::Let(_) => true, Expr::Binary(b) => is_let(&b.left) || is_let(&b.right), Expr::Paren(p) => is_let(&p.expr), _ => false }
}

struct R { n: usize, on: HashSet<usize>, list: bool, kinds: Vec<&'static str>, k: usize, extra: Vec<Item>, lhs: bool }
impl R {
    fn site(&mut self, k: &'static str) -> bool {
        let i = self.n;
        self.n += 1;
        if self.list { self.kinds.push(k); }
        self.on.contains(&i)
    }
    fn name(&mut self, p: &str) -> Ident { self.k += 1; format_ident!("{}_{}", p, self.k) }
}
fn ex(t: proc_macro2::TokenStream) -> Expr { parse2(t.clone()).unwrap_or_else(|e| panic!("{} in {}", e, t)) }
fn blk(t: proc_macro2::TokenStream) -> Block { parse2(quote!({ #t })).unwrap_or_else(|e| panic!("{} in {}", e, t)) }

struct SelfItem(Path);
impl VisitMut for SelfItem {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                let tr = &self.0;
                let i = &p.path.segments[1].ident;
                let tr: Path = if i == "Item" && tr.segments.last().unwrap().ident == "QueryIterator" { parse_quote!(::std::iter::Iterator) } else { tr.clone() };
                *t = parse_quote!(<Self as #tr>::#i);
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

impl VisitMut for R {
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if m.attrs.iter().any(|a| a.path().is_ident("cfg")) { return; }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
    fn visit_item_impl_mut(&mut self, im: &mut ItemImpl) {
        visit_mut::visit_item_impl_mut(self, im);
        let mut add = vec![];
        let tr = im.trait_.as_ref().map(|t| t.0.clone());
        for it in &mut im.items {
            if let ImplItem::Fn(f) = it {
                if f.sig.inputs.iter().any(|a| match a { FnArg::Typed(t) => !matches!(&*t.pat, Pat::Ident(p) if p.subpat.is_none() && p.by_ref.is_none()), _ => false }) { continue; }
                if f.sig.constness.is_some() { continue; }
                if self.site("extract-fn") {
                    let mut g = f.clone();
                    g.attrs.clear();
                    g.vis = Visibility::Inherited;
                    g.sig.ident = format_ident!("{}_inner", f.sig.ident);
                    let gi = &g.sig.ident;
                    let args: Vec<_> = f.sig.inputs.iter().map(|a| match a { FnArg::Receiver(_) => quote!(self), FnArg::Typed(t) => match &*t.pat { Pat::Ident(p) => { let i = &p.ident; quote!(#i) }, _ => unreachable!() } }).collect();
                    let call = quote!(Self::#gi(#(#args),*));
                    f.block = if f.sig.to_token_stream().to_string().contains("unsafe ") { blk(quote!(unsafe { #call })) } else { blk(call) };
                    for a in &mut f.sig.inputs { if let FnArg::Typed(t) = a { if let Pat::Ident(p) = &mut *t.pat { p.mutability = None; } } }
                    // a helper of a trait impl goes into an impl of its own
                    if let Some(t) = &tr { SelfItem(t.clone()).visit_impl_item_fn_mut(&mut g); }
                    add.push(ImplItem::Fn(g));
                }
            }
        }
        if tr.is_some() {
            if !add.is_empty() {
                let mut j = im.clone();
                j.trait_ = None;
                j.attrs.clear();
                
                j.items = add;
                self.extra.push(Item::Impl(j));
            }
        } else { im.items.extend(add); }
    }
    fn visit_file_mut(&mut self, f: &mut File) {
        visit_mut::visit_file_mut(self, f);
        f.items.extend(self.extra.drain(..));
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        // early exit -> else
        for k in 0..b.stmts.len() {
            if k + 1 < b.stmts.len() {
                if let Stmt::Expr(Expr::If(i), _) = &b.stmts[k] {
                    let ends = matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)) | Some(Stmt::Expr(Expr::Continue(_), _)));
                    if i.else_branch.is_none() && ends && self.site("else-rest") {
                        let rest: Vec<_> = b.stmts.drain(k + 1..).collect();
                        let s = b.stmts.pop().unwrap();
                        let (c, t) = match s { Stmt::Expr(Expr::If(i), _) => (i.cond, i.then_branch), _ => unreachable!() };
                        b.stmts.push(Stmt::Expr(ex(quote!(if #c #t else { #(#rest)* })), None));
                        break;
                    }
                }
            }
        }
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Local(l) if l.init.as_ref().map_or(false, |i| i.diverge.is_none()) => {
                    let i = &l.init.as_ref().unwrap().expr;
                    let pat = &l.pat;
                    if let Pat::Tuple(t) = pat {
                        if t.elems.iter().all(|e| matches!(e, Pat::Ident(_))) && self.site("split-tuple") {
                            let n = self.name("tup");
                            out.extend(blk(quote!(let #n = #i;)).stmts);
                            for (k, e) in t.elems.iter().enumerate() {
                                let k = Index::from(k);
                                out.extend(blk(quote!(let #e = #n.#k;)).stmts);
                            }
                            continue;
                        }
                    }
                    if self.site("let-twice") {
                        let n = self.name("tmp");
                        out.extend(blk(quote!(let #n = #i; let #pat = #n;)).stmts);
                        continue;
                    }
                    if plain(flow_e(i)) && self.site("let-closure") {
                        let i = i.clone();
                        out.extend(blk(quote!(let #pat = (|| #i)();)).stmts);
                        continue;
                    }
                    out.push(Stmt::Local(l));
                }
                Stmt::Expr(e, semi) => {
                    if semi.is_some() {
                        if let Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) = e { out.push(Stmt::Expr(e, semi)); continue; }
                        if plain(flow_e(&e)) && self.site("stmt-closure") {
                            out.extend(blk(quote!((|| { #e; })();)).stmts);
                            continue;
                        }
                    }
                    out.push(Stmt::Expr(e, semi));
                }
                Stmt::Macro(m) => {
                    if m.mac.path.is_ident("assert") && self.site("assert-if") {
                        let t = m.mac.tokens.clone();
                        let a: punctuated::Punctuated<Expr, Token![,]> = parse::Parser::parse2(punctuated::Punctuated::parse_terminated, t).unwrap();
                        let c = &a[0];
                        let rest: Vec<_> = a.iter().skip(1).collect();
                        out.extend(blk(quote!(if !(#c) { panic!(#(#rest),*) })).stmts);
                        continue;
                    }
                    out.push(Stmt::Macro(m));
                }
                s => out.push(s),
            }
        }
        let n = out.len();
        for (i, s) in out.iter_mut().enumerate() {
            if let Stmt::Expr(e, semi @ None) = s {
                let block = matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::Unsafe(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_));
                if i + 1 < n && !block { *semi = Some(Default::default()); }
            }
        }
        b.stmts = out;
        // the value of the block
        if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
            if !matches!(e, Expr::Return(_) | Expr::Break(_) | Expr::Continue(_)) && self.site("tail-let") {
                let e = e.clone();
                b.stmts.pop();
                let n = self.name("res");
                b.stmts.extend(blk(quote!(let #n = #e; #n)).stmts);
            }
        }
    }
    fn visit_expr_assign_mut(&mut self, a: &mut ExprAssign) {
        // the target is rewritten as a place
        if let Expr::Index(ix) = &mut *a.left {
            self.visit_expr_mut(&mut ix.expr);
            self.visit_expr_mut(&mut ix.index);
            self.visit_expr_mut(&mut a.right);
            let (p, i, r) = (&ix.expr, &ix.index, &a.right);
            if self.site("set-get-mut") {
                let n = self.name("val");
                let e = ex(quote!({ let #n = #r; *#p.get_mut(#i).unwrap() = #n }));
                // assigned below by the parent
                *a.right = e;
                *a.left = Expr::Verbatim(quote!(_));
            }
            return;
        }
        visit_mut::visit_expr_assign_mut(self, a);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(c) = e {
            // patterns stay
            self.visit_expr_mut(&mut c.body);
            if self.site("closure-block") {
                let b = &c.body;
                let n = self.name("out");
                c.body = Box::new(ex(quote!({ let #n = #b; #n })));
            }
            return;
        }
        if let Expr::Reference(r) = e {
            // &mut a[i]: keep the place
            if let Expr::Index(ix) = &mut *r.expr {
                self.visit_expr_mut(&mut ix.expr);
                self.visit_expr_mut(&mut ix.index);
                let (p, i) = (&ix.expr, &ix.index);
                if self.site("ref-get") {
                    *e = if r.mutability.is_some() { ex(quote!(#p.get_mut(#i).unwrap())) } else { ex(quote!(#p.get(#i).unwrap())) };
                }
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::If(i) if !is_let(&i.cond) => {
                let (c, t) = (&i.cond, &i.then_branch);
                if let Some((_, el)) = &i.else_branch {
                    let single = |b: &Block| -> Option<Expr> { match &b.stmts[..] { [Stmt::Expr(e, None)] => Some(e.clone()), _ => None } };
                    let (te, ee) = (single(t), if let Expr::Block(b) = &**el { single(&b.block) } else { None });
                    if let (Some(Expr::Call(cc)), Some(Expr::Path(pp))) = (&te, &ee) {
                        if cc.func.to_token_stream().to_string() == "Some" && pp.path.is_ident("None") && plain(flow_e(&cc.args[0])) && self.site("then") {
                            let v = &cc.args[0];
                            *e = ex(quote!((#c).then(|| #v)));
                            return;
                        }
                    }
                    if te.as_ref().map_or(false, |x| x.to_token_stream().to_string() == "true") && ee.as_ref().map_or(false, |x| x.to_token_stream().to_string() == "false") && self.site("bool-id") {
                        *e = ex(quote!((#c)));
                        return;
                    }
                    let eb = match &**el { Expr::Block(b) => b.block.to_token_stream(), x => quote!({ #x }) };
                    if self.site("if-swap") { Some(ex(quote!(if !(#c) #eb else #t))) }
                    else if self.site("if-match") { Some(ex(quote!(match #c { true => #t, false => #eb }))) }
                    else { None }
                } else if self.site("cond-let") {
                    let n = self.name("cond");
                    Some(ex(quote!({ let #n = #c; if #n #t })))
                } else { None }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &*i.cond {
                    if self.site("iflet-match") {
                        let (p, s, t) = (&l.pat, &l.expr, &i.then_branch);
                        let el = i.else_branch.as_ref().map(|x| x.1.to_token_stream()).unwrap_or(quote!({}));
                        Some(ex(quote!(match #s { #p => #t, _ => #el })))
                    } else { None }
                } else { None }
            }
            Expr::While(w) => {
                let (l, b) = (&w.label, &w.body);
                if let Expr::Let(c) = &*w.cond {
                    if self.site("whilelet-loop") {
                        let (p, s) = (&c.pat, &c.expr);
                        Some(ex(quote!(#l loop { match #s { #p => #b, _ => break } })))
                    } else { None }
                } else if self.site("while-loop") {
                    let c = &w.cond;
                    let st = &b.stmts;
                    Some(ex(quote!(#l loop { if !(#c) { break; } #(#st)* })))
                } else { None }
            }
            Expr::ForLoop(w) => {
                let (l, p, it, b) = (&w.label, &w.pat, &w.expr, &w.body);
                let range = if let Expr::Range(r) = &**it { if let (Some(a), Some(z), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) { Some((a.clone(), z.clone())) } else { None } } else { None };
                if let (Some((a, z)), Pat::Ident(_)) = (range, &**p) {
                    if !flow_b(b).jump && self.site("for-count") {
                        let (n, m) = (self.name("at"), self.name("stop"));
                        let st = &b.stmts;
                        *e = ex(quote!({ let mut #n = #a; let #m = #z; #l while #n < #m { let #p = #n; #(#st)* ; #n += 1; } }));
                        return;
                    }
                }
                if plain(flow_b(b)) && l.is_none() && self.site("for-each") {
                    Some(ex(quote!((#it).into_iter().for_each(|#p| #b))))
                } else if self.site("for-while") {
                    let n = self.name("iter");
                    Some(ex(quote!({ let mut #n = ::std::iter::IntoIterator::into_iter(#it); #l while let Some(#p) = #n.next() #b })))
                } else if self.site("for-loop") {
                    let n = self.name("iter");
                    Some(ex(quote!({ let mut #n = (#it).into_iter(); #l loop { let #p = match #n.next() { None => break, Some(x) => x }; #b } })))
                } else { None }
            }
            Expr::Match(m) => {
                let tame = m.arms.iter().all(|a| a.guard_none() && matches!(a.pat, Pat::TupleStruct(_)));
                if tame && m.arms.len() > 1 && self.site("arms") {
                    let mut m = m.clone();
                    m.arms.rotate_left(1);
                    for a in &mut m.arms { a.comma = Some(Default::default()); }
                    Some(Expr::Match(m))
                } else { None }
            }
            Expr::Binary(b) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::And(_) if !is_let(l) && !is_let(r) => if self.site("and-if") { Some(ex(quote!((if #l { #r } else { false })))) } else { None },
                    BinOp::Or(_) => if self.site("or-if") { Some(ex(quote!((if #l { true } else { #r })))) } else { None },
                    BinOp::Lt(_) => if self.site("lt") { Some(ex(quote!((!((#l) >= #r))))) } else { None },
                    BinOp::Le(_) => if self.site("le") { Some(ex(quote!((!(#l > #r))))) } else { None },
                    BinOp::Ge(_) => if self.site("ge") { Some(ex(quote!((!((#l) < #r))))) } else { None },
                    BinOp::Gt(_) => if self.site("gt") { Some(ex(quote!((!(#l <= #r))))) } else { None },
                    BinOp::Eq(_) => if self.site("eq") { Some(ex(quote!((!(#l != #r))))) } else { None },
                    BinOp::Ne(_) => if self.site("ne") { Some(ex(quote!((!(#l == #r))))) } else { None },
                    BinOp::AddAssign(_) => if self.site("add-assign") { Some(ex(quote!(#l = #l + #r))) } else { None },
                    BinOp::SubAssign(_) => if self.site("sub-assign") { Some(ex(quote!(#l = #l - #r))) } else { None },
                    BinOp::Add(_) => if self.site("add") { Some(ex(quote!((#r + #l)))) } else { None },
                    _ => None,
                }
            }
            Expr::MethodCall(m) => {
                let (r, a) = (&m.receiver, &m.args);
                match m.method.to_string().as_str() {
                    "unwrap" | "expect" => if self.site("unwrap") { Some(ex(quote!((match #r { Some(x) => x, None => panic!() })))) } else { None },
                    "is_some" => if self.site("is-some") { Some(ex(quote!(matches!(#r, Some(_))))) } else { None },
                    "is_empty" => if self.site("is-empty") { Some(ex(quote!((#r.len() == 0)))) } else { None },
                    "map" => if let (Some(Expr::Closure(c)), true) = (a.first(), self.site("map-match")) {
                        let (p, b) = (c.inputs.first().unwrap(), &c.body);
                        Some(ex(quote!((match #r { Some(#p) => Some(#b), None => None }))))
                    } else { None },
                    "add" if a.len() == 2 => if self.site("hoist-arg") {
                        let (x, y) = (&a[0], &a[1]);
                        let (n, m) = (self.name("arg"), self.name("arg"));
                        Some(ex(quote!({ let #n = #x; let #m = #y; #r.add(#n, #m) })))
                    } else { None },
                    _ => None,
                }
            }
            Expr::Try(t) => if self.site("try-match") { let x = &t.expr; Some(ex(quote!((match #x { Some(v) => v, None => return None })))) } else { None },
            Expr::Unsafe(u) => if self.site("unsafe-let") { let n = self.name("raw"); let b = &u.block; Some(ex(quote!({ let #n = unsafe #b; #n }))) } else { None },
            Expr::Index(i) => if !self.lhs && self.site("index-get") { let (p, x) = (&i.expr, &i.index); Some(ex(quote!((*#p.get(#x).unwrap())))) } else { None },
            Expr::Call(c) if c.func.to_token_stream().to_string() == "drop" => if self.site("drop-move") { let a = &c.args[0]; Some(ex(quote!({ let _moved = #a; }))) } else { None },
            _ => None,
        };
        if let Some(n) = new { *e = n; }
    }
}
trait GuardNone { fn guard_none(&self) -> bool; }
impl GuardNone for Arm { fn guard_none(&self) -> bool { !self.to_token_stream().to_string().split("=>").next().unwrap().contains(" if ") } }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).unwrap();
    let mut f = parse_file(&src).unwrap();
    let list = a[2] == "list";
    let on = if list { HashSet::new() } else { a[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    let mut r = R { n: 0, on, list, kinds: vec![], k: 0, extra: vec![], lhs: false };
    r.visit_file_mut(&mut f);
    if list { println!("{}", r.kinds.join("\n")); } else { print!("{}", f.to_token_stream()); }
}
