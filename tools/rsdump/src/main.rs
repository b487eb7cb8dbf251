// Dumps the syntax tree of Rust files as JSON with byte ranges into the file.
// Every node: {"k": kind, "s": start, "e": end, ...}. Used by the extractor.
use proc_macro2::Span;
use quote::ToTokens;
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::*;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct N(String);
impl N {
    fn new(kind: &str, sp: Span) -> N {
        let r = sp.byte_range();
        N(format!("{{\"k\":{},\"s\":{},\"e\":{}", esc(kind), r.start, r.end))
    }
    fn str(mut self, k: &str, v: &str) -> N { let _ = write!(self.0, ",\"{}\":{}", k, esc(v)); self }
    fn boolean(mut self, k: &str, v: bool) -> N { let _ = write!(self.0, ",\"{}\":{}", k, v); self }
    fn raw(mut self, k: &str, v: String) -> N { let _ = write!(self.0, ",\"{}\":{}", k, v); self }
    fn opt(self, k: &str, v: Option<String>) -> N { match v { Some(v) => self.raw(k, v), None => self.raw(k, "null".into()) } }
    fn done(mut self) -> String { self.0.push('}'); self.0 }
}
fn list<I: IntoIterator<Item = String>>(i: I) -> String { format!("[{}]", i.into_iter().collect::<Vec<_>>().join(",")) }
fn toks<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }

fn attr(a: &Attribute) -> String { N::new("attr", a.span()).str("path", &toks(a.path())).str("text", &toks(a)).done() }
fn attrs(a: &[Attribute]) -> String { list(a.iter().map(attr)) }
fn ty(t: &Type) -> String { N::new("type", t.span()).str("text", &toks(t)).done() }

fn pat(p: &Pat) -> String {
    let sp = p.span();
    match p {
        Pat::Ident(i) => N::new("PIdent", sp).str("name", &i.ident.to_string()).boolean("mut", i.mutability.is_some()).boolean("ref", i.by_ref.is_some()).opt("sub", i.subpat.as_ref().map(|s| pat(&s.1))).done(),
        Pat::Tuple(t) => N::new("PTuple", sp).raw("elems", list(t.elems.iter().map(pat))).done(),
        Pat::TupleStruct(t) => N::new("PTupleStruct", sp).str("path", &toks(&t.path)).raw("elems", list(t.elems.iter().map(pat))).done(),
        Pat::Struct(t) => N::new("PStruct", sp).str("path", &toks(&t.path)).raw("fields", list(t.fields.iter().map(|f| N::new("pf", f.span()).str("name", &toks(&f.member)).raw("pat", pat(&f.pat)).done()))).done(),
        Pat::Reference(r) => N::new("PRef", sp).raw("pat", pat(&r.pat)).done(),
        Pat::Or(o) => N::new("POr", sp).raw("cases", list(o.cases.iter().map(pat))).done(),
        Pat::Type(t) => N::new("PType", sp).raw("pat", pat(&t.pat)).raw("ty", ty(&t.ty)).done(),
        Pat::Wild(_) => N::new("PWild", sp).done(),
        Pat::Path(p) => N::new("PPath", sp).str("path", &toks(&p.path)).done(),
        Pat::Lit(p) => N::new("PLit", sp).str("text", &toks(p)).done(),
        Pat::Paren(p) => N::new("PParen", sp).raw("pat", pat(&p.pat)).done(),
        _ => N::new("POther", sp).str("text", &toks(p)).done(),
    }
}

fn block(b: &Block) -> String { N::new("Block", b.span()).raw("stmts", list(b.stmts.iter().map(stmt))).done() }

fn stmt(s: &Stmt) -> String {
    let sp = s.span();
    match s {
        Stmt::Local(l) => N::new("Local", sp).raw("pat", pat(&l.pat)).opt("init", l.init.as_ref().map(|i| expr(&i.expr))).opt("else", l.init.as_ref().and_then(|i| i.diverge.as_ref().map(|d| expr(&d.1)))).raw("attrs", attrs(&l.attrs)).done(),
        Stmt::Item(i) => N::new("SItem", sp).raw("item", item(i)).done(),
        Stmt::Expr(e, semi) => N::new("SExpr", sp).raw("expr", expr(e)).boolean("semi", semi.is_some()).done(),
        Stmt::Macro(m) => N::new("SMacro", sp).str("path", &toks(&m.mac.path)).str("text", &toks(&m.mac.tokens)).boolean("semi", m.semi_token.is_some()).done(),
    }
}

fn expr_attrs(e: &Expr) -> Vec<Attribute> {
    match e {
        Expr::If(x) => x.attrs.clone(), Expr::Match(x) => x.attrs.clone(), Expr::While(x) => x.attrs.clone(),
        Expr::ForLoop(x) => x.attrs.clone(), Expr::Loop(x) => x.attrs.clone(), Expr::Block(x) => x.attrs.clone(),
        Expr::Call(x) => x.attrs.clone(), Expr::MethodCall(x) => x.attrs.clone(), Expr::Assign(x) => x.attrs.clone(),
        Expr::Binary(x) => x.attrs.clone(), Expr::Return(x) => x.attrs.clone(), Expr::Try(x) => x.attrs.clone(),
        Expr::Path(x) => x.attrs.clone(), Expr::Struct(x) => x.attrs.clone(),
        _ => vec![],
    }
}

fn expr(e: &Expr) -> String {
    let sp = e.span();
    let a = expr_attrs(e);
    let n = |k: &str| { let n = N::new(k, sp); if a.is_empty() { n } else { n.raw("attrs", attrs(&a)) } };
    match e {
        Expr::Array(x) => n("Array").raw("elems", list(x.elems.iter().map(expr))).done(),
        Expr::Assign(x) => n("Assign").raw("left", expr(&x.left)).raw("right", expr(&x.right)).done(),
        Expr::Binary(x) => n("Binary").str("op", &toks(&x.op)).raw("left", expr(&x.left)).raw("right", expr(&x.right)).done(),
        Expr::Block(x) => n("BlockExpr").raw("block", block(&x.block)).opt("label", x.label.as_ref().map(|l| esc(&toks(l)))).done(),
        Expr::Break(x) => n("Break").opt("label", x.label.as_ref().map(|l| esc(&toks(l)))).opt("expr", x.expr.as_ref().map(|e| expr(e))).done(),
        Expr::Call(x) => n("Call").raw("func", expr(&x.func)).raw("args", list(x.args.iter().map(expr))).done(),
        Expr::Cast(x) => n("Cast").raw("expr", expr(&x.expr)).raw("ty", ty(&x.ty)).done(),
        Expr::Closure(x) => n("Closure").raw("params", list(x.inputs.iter().map(pat))).raw("body", expr(&x.body)).done(),
        Expr::Continue(_) => n("Continue").done(),
        Expr::Field(x) => n("Field").raw("base", expr(&x.base)).str("member", &toks(&x.member)).done(),
        Expr::ForLoop(x) => n("For").raw("pat", pat(&x.pat)).raw("iter", expr(&x.expr)).raw("body", block(&x.body)).opt("label", x.label.as_ref().map(|l| esc(&toks(l)))).done(),
        Expr::If(x) => n("If").raw("cond", expr(&x.cond)).raw("then", block(&x.then_branch)).opt("else", x.else_branch.as_ref().map(|e| expr(&e.1))).done(),
        Expr::Index(x) => n("Index").raw("base", expr(&x.expr)).raw("index", expr(&x.index)).done(),
        Expr::Let(x) => n("Let").raw("pat", pat(&x.pat)).raw("expr", expr(&x.expr)).done(),
        Expr::Lit(x) => n("Lit").str("text", &toks(x)).str("lk", match &x.lit { Lit::Str(_) => "str", Lit::ByteStr(_) => "bytestr", Lit::Int(_) => "int", Lit::Bool(_) => "bool", _ => "other" })
            .opt("value", match &x.lit { Lit::Str(s) => Some(list(s.value().bytes().map(|b| b.to_string()))), Lit::ByteStr(s) => Some(list(s.value().iter().map(|b| b.to_string()))), Lit::Int(i) => i.base10_parse::<u128>().ok().map(|v| v.to_string()), _ => None }).done(),
        Expr::Loop(x) => n("Loop").raw("body", block(&x.body)).opt("label", x.label.as_ref().map(|l| esc(&toks(l)))).done(),
        Expr::Macro(x) => n("Macro").str("path", &toks(&x.mac.path)).str("text", &toks(&x.mac.tokens)).done(),
        Expr::Match(x) => n("Match").raw("expr", expr(&x.expr)).raw("arms", list(x.arms.iter().map(|a| N::new("Arm", a.span()).raw("pat", pat(&a.pat)).opt("guard", a.guard.as_ref().map(|g| expr(&g.1))).raw("body", expr(&a.body)).raw("attrs", attrs(&a.attrs)).done()))).done(),
        Expr::MethodCall(x) => n("MethodCall").raw("recv", expr(&x.receiver)).str("method", &x.method.to_string()).raw("args", list(x.args.iter().map(expr)))
            .raw("dot", x.dot_token.span().byte_range().start.to_string()).done(),
        Expr::Paren(x) => n("Paren").raw("expr", expr(&x.expr)).done(),
        Expr::Group(x) => n("Paren").raw("expr", expr(&x.expr)).done(),
        Expr::Path(x) => n("Path").str("path", &toks(x)).done(),
        Expr::Range(x) => n("Range").opt("from", x.start.as_ref().map(|e| expr(e))).opt("to", x.end.as_ref().map(|e| expr(e))).str("limits", &toks(&x.limits)).done(),
        Expr::Reference(x) => n("Ref").boolean("mut", x.mutability.is_some()).raw("expr", expr(&x.expr)).done(),
        Expr::Repeat(x) => n("Repeat").raw("expr", expr(&x.expr)).raw("len", expr(&x.len)).done(),
        Expr::Return(x) => n("Return").opt("expr", x.expr.as_ref().map(|e| expr(e))).done(),
        Expr::Struct(x) => n("StructLit").str("path", &toks(&x.path)).raw("fields", list(x.fields.iter().map(|f| N::new("fv", f.span()).str("name", &toks(&f.member)).boolean("short", f.colon_token.is_none()).raw("expr", expr(&f.expr)).done()))).opt("rest", x.rest.as_ref().map(|e| expr(e))).done(),
        Expr::Try(x) => n("Try").raw("expr", expr(&x.expr)).done(),
        Expr::Tuple(x) => n("Tuple").raw("elems", list(x.elems.iter().map(expr))).done(),
        Expr::Unary(x) => n("Unary").str("op", &toks(&x.op)).raw("expr", expr(&x.expr)).done(),
        Expr::Unsafe(x) => n("Unsafe").raw("block", block(&x.block)).done(),
        Expr::While(x) => n("While").raw("cond", expr(&x.cond)).raw("body", block(&x.body)).opt("label", x.label.as_ref().map(|l| esc(&toks(l)))).done(),
        _ => n("EOther").str("text", &toks(e)).done(),
    }
}

fn sig(s: &Signature) -> String {
    N::new("Sig", s.span()).str("name", &s.ident.to_string())
        .raw("name_s", s.ident.span().byte_range().start.to_string())
        .raw("params_end", s.paren_token.span.close().byte_range().end.to_string())
        .str("generics", &toks(&s.generics)).opt("where", s.generics.where_clause.as_ref().map(|w| esc(&toks(w))))
        .boolean("const", s.constness.is_some()).boolean("unsafe", s.unsafety.is_some())
        .raw("params", list(s.inputs.iter().map(|i| match i {
            FnArg::Receiver(r) => N::new("Self", r.span()).str("text", &toks(r)).done(),
            FnArg::Typed(t) => N::new("Param", t.span()).raw("pat", pat(&t.pat)).raw("ty", ty(&t.ty)).done(),
        })))
        .opt("ret", match &s.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some(ty(t)) }).done()
}
fn vis(v: &Visibility) -> String { toks(v) }

fn fields(f: &Fields) -> String {
    list(f.iter().map(|f| N::new("field", f.span()).str("name", &f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default()).str("vis", &vis(&f.vis)).raw("ty", ty(&f.ty)).raw("attrs", attrs(&f.attrs)).done()))
}

fn item(i: &Item) -> String {
    let sp = i.span();
    match i {
        Item::Fn(f) => N::new("Fn", sp).raw("attrs", attrs(&f.attrs)).str("vis", &vis(&f.vis)).raw("sig", sig(&f.sig)).raw("body", block(&f.block)).done(),
        Item::Impl(m) => N::new("Impl", sp).raw("attrs", attrs(&m.attrs)).str("generics", &toks(&m.generics)).str("self_ty", &toks(&m.self_ty)).opt("trait", m.trait_.as_ref().map(|t| esc(&toks(&t.1))))
            .raw("items", list(m.items.iter().map(|x| match x {
                ImplItem::Fn(f) => N::new("Fn", x.span()).raw("attrs", attrs(&f.attrs)).str("vis", &vis(&f.vis)).raw("sig", sig(&f.sig)).raw("body", block(&f.block)).done(),
                ImplItem::Const(c) => N::new("Const", x.span()).raw("attrs", attrs(&c.attrs)).str("name", &c.ident.to_string()).done(),
                ImplItem::Type(c) => N::new("AssocType", x.span()).raw("attrs", attrs(&c.attrs)).str("name", &c.ident.to_string()).raw("ty", ty(&c.ty)).done(),
                _ => N::new("Other", x.span()).raw("attrs", "[]".into()).done(),
            }))).done(),
        Item::Struct(s) => N::new("Struct", sp).raw("attrs", attrs(&s.attrs)).str("vis", &vis(&s.vis)).str("name", &s.ident.to_string()).str("generics", &toks(&s.generics)).raw("fields", fields(&s.fields)).done(),
        Item::Enum(s) => N::new("Enum", sp).raw("attrs", attrs(&s.attrs)).str("vis", &vis(&s.vis)).str("name", &s.ident.to_string()).raw("variants", list(s.variants.iter().map(|v| N::new("Variant", v.span()).str("name", &v.ident.to_string()).raw("attrs", attrs(&v.attrs)).raw("fields", fields(&v.fields)).opt("disc", v.discriminant.as_ref().map(|d| expr(&d.1))).done()))).done(),
        Item::Use(u) => N::new("Use", sp).raw("attrs", attrs(&u.attrs)).str("vis", &vis(&u.vis)).str("text", &toks(u)).done(),
        Item::Mod(m) => N::new("Mod", sp).raw("attrs", attrs(&m.attrs)).str("vis", &vis(&m.vis)).str("name", &m.ident.to_string()).opt("items", m.content.as_ref().map(|c| list(c.1.iter().map(item)))).done(),
        Item::Const(c) => N::new("Const", sp).raw("attrs", attrs(&c.attrs)).str("name", &c.ident.to_string()).done(),
        Item::Static(c) => N::new("Static", sp).raw("attrs", attrs(&c.attrs)).str("name", &c.ident.to_string()).done(),
        Item::Type(t) => N::new("TypeAlias", sp).raw("attrs", attrs(&t.attrs)).str("vis", &vis(&t.vis)).str("name", &t.ident.to_string()).raw("ty", ty(&t.ty)).done(),
        Item::Macro(m) => N::new("MacroItem", sp).raw("attrs", attrs(&m.attrs)).str("path", &toks(&m.mac.path)).done(),
        Item::Trait(t) => N::new("Trait", sp).raw("attrs", attrs(&t.attrs)).str("name", &t.ident.to_string()).done(),
        _ => N::new("Other", sp).raw("attrs", "[]".into()).done(),
    }
}

fn main() {
    let mut out = Vec::new();
    for p in std::env::args().skip(1) {
        let src = std::fs::read_to_string(&p).unwrap();
        match parse_file(&src) {
            Ok(f) => out.push(format!("{}:{{\"attrs\":{},\"items\":{}}}", esc(&p), attrs(&f.attrs), list(f.items.iter().map(item)))),
            Err(e) => out.push(format!("{}:{{\"error\":{}}}", esc(&p), esc(&e.to_string()))),
        }
    }
    println!("{{{}}}", out.join(","));
}
