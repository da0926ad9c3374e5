// Parses Rust source files with syn and prints a JSON abstract syntax tree.
// usage: frontend ROOT FILE...   (paths relative to ROOT)
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use syn::parse::{Parse, ParseStream, Parser};
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

fn line<T: Spanned>(t: &T) -> usize {
    t.span().start().line
}
fn txt<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = txt(a).replace(' ', "");
        s == "#[cfg(test)]" || s == "#[test]"
    })
}
fn attrs_json(attrs: &[Attribute]) -> Value {
    Value::Array(
        attrs
            .iter()
            .filter(|a| !a.path().is_ident("doc"))
            .map(|a| json!(txt(a).replace(' ', "")))
            .collect(),
    )
}

fn gargs(a: &PathArguments) -> Value {
    match a {
        PathArguments::None => json!([]),
        PathArguments::AngleBracketed(ab) => Value::Array(
            ab.args
                .iter()
                .filter_map(|g| match g {
                    GenericArgument::Type(t) => Some(ty(t)),
                    GenericArgument::Const(e) => Some(json!({"k":"const","e":expr(e)})),
                    GenericArgument::AssocType(a) => {
                        Some(json!({"k":"assoc","name":a.ident.to_string(),"ty":ty(&a.ty)}))
                    }
                    _ => None,
                })
                .collect(),
        ),
        PathArguments::Parenthesized(p) => json!([{"k":"fnargs","txt":txt(p)}]),
    }
}
fn path(p: &Path) -> Value {
    Value::Array(
        p.segments
            .iter()
            .map(|s| json!({"n": s.ident.to_string(), "g": gargs(&s.arguments)}))
            .collect(),
    )
}
fn ty(t: &Type) -> Value {
    match t {
        Type::Path(p) => {
            let q = match &p.qself {
                Some(q) => ty(&q.ty),
                None => Value::Null,
            };
            json!({"k":"path","p":path(&p.path),"q":q})
        }
        Type::Reference(r) => {
            json!({"k":"ref","mut":r.mutability.is_some(),"t":ty(&r.elem)})
        }
        Type::Tuple(t) => json!({"k":"tuple","ts":t.elems.iter().map(ty).collect::<Vec<_>>()}),
        Type::Array(a) => json!({"k":"array","t":ty(&a.elem),"n":expr(&a.len)}),
        Type::Slice(a) => json!({"k":"slice","t":ty(&a.elem)}),
        Type::Paren(p) => ty(&p.elem),
        Type::Group(p) => ty(&p.elem),
        Type::Infer(_) => json!({"k":"infer"}),
        Type::ImplTrait(i) => json!({"k":"impl","txt":txt(i)}),
        Type::Never(_) => json!({"k":"never"}),
        other => json!({"k":"other","txt":txt(other)}),
    }
}

fn pat(p: &Pat) -> Value {
    match p {
        Pat::Ident(i) => json!({"k":"ident","n":i.ident.to_string(),
            "ref":i.by_ref.is_some(),"mut":i.mutability.is_some(),
            "sub": i.subpat.as_ref().map(|(_,s)| pat(s)).unwrap_or(Value::Null)}),
        Pat::Wild(_) => json!({"k":"wild"}),
        Pat::Rest(_) => json!({"k":"rest"}),
        Pat::Tuple(t) => json!({"k":"tuple","ps":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Slice(t) => json!({"k":"slice","ps":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::TupleStruct(t) => {
            json!({"k":"tstruct","p":path(&t.path),"ps":t.elems.iter().map(pat).collect::<Vec<_>>()})
        }
        Pat::Struct(s) => json!({"k":"struct","p":path(&s.path),
            "fs": s.fields.iter().map(|f| json!({"n":member(&f.member),"p":pat(&f.pat)})).collect::<Vec<_>>()}),
        Pat::Path(p) => json!({"k":"path","p":path(&p.path)}),
        Pat::Reference(r) => json!({"k":"ref","p":pat(&r.pat)}),
        Pat::Paren(p) => pat(&p.pat),
        Pat::Type(t) => json!({"k":"typed","p":pat(&t.pat),"t":ty(&t.ty)}),
        Pat::Lit(l) => json!({"k":"lit","e":expr(&Expr::Lit(l.clone()))}),
        Pat::Range(r) => json!({"k":"range",
            "lo":r.start.as_ref().map(|e| expr(e)).unwrap_or(Value::Null),
            "hi":r.end.as_ref().map(|e| expr(e)).unwrap_or(Value::Null),
            "incl": matches!(r.limits, RangeLimits::Closed(_))}),
        Pat::Or(o) => json!({"k":"or","ps":o.cases.iter().map(pat).collect::<Vec<_>>()}),
        other => json!({"k":"other","txt":txt(other)}),
    }
}
fn member(m: &Member) -> String {
    match m {
        Member::Named(i) => i.to_string(),
        Member::Unnamed(i) => i.index.to_string(),
    }
}

fn block(b: &Block) -> Value {
    json!({"k":"block","ss":b.stmts.iter().map(stmt).collect::<Vec<_>>(),"line":line(b)})
}
fn stmt(s: &Stmt) -> Value {
    match s {
        Stmt::Local(l) => json!({"k":"let","pat":pat(&l.pat),"line":line(l),
            "init":l.init.as_ref().map(|i| expr(&i.expr)).unwrap_or(Value::Null),
            "else":l.init.as_ref().and_then(|i| i.diverge.as_ref().map(|d| expr(&d.1))).unwrap_or(Value::Null)}),
        Stmt::Item(i) => json!({"k":"item","i":item(i)}),
        Stmt::Expr(e, semi) => json!({"k":"expr","e":expr(e),"semi":semi.is_some(),"line":line(e)}),
        Stmt::Macro(m) => {
            let mut v = mac(&m.mac);
            v["line"] = json!(line(&m.mac));
            json!({"k":"expr","e":v,"semi":m.semi_token.is_some(),"line":line(&m.mac)})
        }
    }
}

struct SArgs(Vec<Value>);
impl Parse for SArgs {
    fn parse(input: ParseStream) -> Result<Self> {
        let es: Punctuated<Expr, Token![,]> = Punctuated::parse_terminated(input)?;
        Ok(SArgs(es.iter().map(expr).collect()))
    }
}
struct RepArgs(Value, Value);
impl Parse for RepArgs {
    fn parse(input: ParseStream) -> Result<Self> {
        let a: Expr = input.parse()?;
        let _: Token![;] = input.parse()?;
        let b: Expr = input.parse()?;
        Ok(RepArgs(expr(&a), expr(&b)))
    }
}
struct MatchesArgs(Value, Value, Value);
impl Parse for MatchesArgs {
    fn parse(input: ParseStream) -> Result<Self> {
        let a: Expr = input.parse()?;
        let _: Token![,] = input.parse()?;
        let p = Pat::parse_multi_with_leading_vert(input)?;
        let g = if input.peek(Token![if]) {
            let _: Token![if] = input.parse()?;
            let g: Expr = input.parse()?;
            expr(&g)
        } else {
            Value::Null
        };
        let _: Option<Token![,]> = input.parse()?;
        Ok(MatchesArgs(expr(&a), pat(&p), g))
    }
}

fn mac(m: &Macro) -> Value {
    let name = m.path.segments.last().unwrap().ident.to_string();
    let ts: TokenStream = m.tokens.clone();
    let raw = ts.to_string();
    if name == "vec" {
        if let Ok(r) = RepArgs::parse.parse2(ts.clone()) {
            return json!({"k":"macro","n":"vec_rep","args":[r.0, r.1]});
        }
    }
    if name == "matches" {
        if let Ok(r) = MatchesArgs::parse.parse2(ts.clone()) {
            return json!({"k":"matches","e":r.0,"p":r.1,"g":r.2});
        }
    }
    // ndarray's s![a..b;step] : mark steps as unsupported
    if ts.clone().into_iter().any(|t| matches!(t, TokenTree::Punct(ref p) if p.as_char()==';')) {
        return json!({"k":"macro","n":name,"args":Value::Null,"raw":raw});
    }
    match SArgs::parse.parse2(ts) {
        Ok(a) => json!({"k":"macro","n":name,"args":a.0,"raw":raw}),
        Err(_) => json!({"k":"macro","n":name,"args":Value::Null,"raw":raw}),
    }
}

fn opt(e: &Option<Box<Expr>>) -> Value {
    e.as_ref().map(|e| expr(e)).unwrap_or(Value::Null)
}

fn expr(e: &Expr) -> Value {
    let mut v = expr0(e);
    if v.is_object() {
        v["line"] = json!(line(e));
    }
    v
}
fn expr0(e: &Expr) -> Value {
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => json!({"k":"int","v":i.base10_digits(),"suf":i.suffix()}),
            Lit::Float(f) => json!({"k":"float","v":f.base10_digits(),"suf":f.suffix()}),
            Lit::Bool(b) => json!({"k":"bool","v":b.value}),
            Lit::Str(s) => json!({"k":"str","v":s.value()}),
            other => json!({"k":"otherlit","txt":txt(other)}),
        },
        Expr::Path(p) => {
            let q = match &p.qself {
                Some(q) => ty(&q.ty),
                None => Value::Null,
            };
            json!({"k":"path","p":path(&p.path),"q":q})
        }
        Expr::Binary(b) => json!({"k":"bin","op":txt(&b.op),"l":expr(&b.left),"r":expr(&b.right)}),
        Expr::Unary(u) => json!({"k":"un","op":txt(&u.op),"e":expr(&u.expr)}),
        Expr::Paren(p) => expr(&p.expr),
        Expr::Group(p) => expr(&p.expr),
        Expr::Reference(r) => json!({"k":"ref","mut":r.mutability.is_some(),"e":expr(&r.expr)}),
        Expr::Call(c) => {
            json!({"k":"call","f":expr(&c.func),"args":c.args.iter().map(expr).collect::<Vec<_>>()})
        }
        Expr::MethodCall(c) => json!({"k":"mcall","recv":expr(&c.receiver),"m":c.method.to_string(),
            "g": c.turbofish.as_ref().map(|t| gargs(&PathArguments::AngleBracketed(t.clone()))).unwrap_or(Value::Null),
            "args":c.args.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Field(f) => json!({"k":"field","e":expr(&f.base),"n":member(&f.member)}),
        Expr::Index(i) => json!({"k":"index","e":expr(&i.expr),"i":expr(&i.index)}),
        Expr::If(i) => {
            json!({"k":"if","c":expr(&i.cond),"t":block(&i.then_branch),
            "e":i.else_branch.as_ref().map(|(_,e)| expr(e)).unwrap_or(Value::Null)})
        }
        Expr::Let(l) => json!({"k":"letcond","p":pat(&l.pat),"e":expr(&l.expr)}),
        Expr::Match(m) => json!({"k":"match","e":expr(&m.expr),
            "arms":m.arms.iter().map(|a| json!({"p":pat(&a.pat),
                "g":a.guard.as_ref().map(|(_,g)| expr(g)).unwrap_or(Value::Null),"b":expr(&a.body)})).collect::<Vec<_>>()}),
        Expr::Block(b) => block(&b.block),
        Expr::Unsafe(b) => block(&b.block),
        Expr::ForLoop(f) => json!({"k":"for","pat":pat(&f.pat),"e":expr(&f.expr),"b":block(&f.body),
            "label":f.label.as_ref().map(|l| json!(l.name.ident.to_string())).unwrap_or(Value::Null)}),
        Expr::While(w) => json!({"k":"while","c":expr(&w.cond),"b":block(&w.body),
            "label":w.label.as_ref().map(|l| json!(l.name.ident.to_string())).unwrap_or(Value::Null)}),
        Expr::Loop(w) => json!({"k":"loop","b":block(&w.body),
            "label":w.label.as_ref().map(|l| json!(l.name.ident.to_string())).unwrap_or(Value::Null)}),
        Expr::Break(b) => json!({"k":"break","e":opt(&b.expr),
            "label":b.label.as_ref().map(|l| json!(l.ident.to_string())).unwrap_or(Value::Null)}),
        Expr::Continue(b) => json!({"k":"continue",
            "label":b.label.as_ref().map(|l| json!(l.ident.to_string())).unwrap_or(Value::Null)}),
        Expr::Return(r) => json!({"k":"return","e":opt(&r.expr)}),
        Expr::Assign(a) => json!({"k":"assign","l":expr(&a.left),"r":expr(&a.right)}),
        Expr::Closure(c) => json!({"k":"closure","ps":c.inputs.iter().map(pat).collect::<Vec<_>>(),"b":expr(&c.body)}),
        Expr::Range(r) => json!({"k":"range","lo":opt(&r.start),"hi":opt(&r.end),
            "incl": matches!(r.limits, RangeLimits::Closed(_))}),
        Expr::Tuple(t) => json!({"k":"tuple","es":t.elems.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Array(t) => json!({"k":"arr","es":t.elems.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Repeat(r) => json!({"k":"arrrep","e":expr(&r.expr),"n":expr(&r.len)}),
        Expr::Struct(s) => json!({"k":"struct","p":path(&s.path),
            "fs":s.fields.iter().map(|f| json!({"n":member(&f.member),"e":expr(&f.expr)})).collect::<Vec<_>>(),
            "rest":opt(&s.rest)}),
        Expr::Cast(c) => json!({"k":"cast","e":expr(&c.expr),"t":ty(&c.ty)}),
        Expr::Try(t) => json!({"k":"try","e":expr(&t.expr)}),
        Expr::Macro(m) => mac(&m.mac),
        other => json!({"k":"other","txt":txt(other)}),
    }
}

fn generics(g: &Generics) -> Value {
    let ps: Vec<Value> = g
        .params
        .iter()
        .filter_map(|p| match p {
            GenericParam::Type(t) => Some(json!({"n":t.ident.to_string(),"b":txt(&t.bounds)})),
            _ => None,
        })
        .collect();
    let w: Vec<Value> = g
        .where_clause
        .iter()
        .flat_map(|w| w.predicates.iter())
        .filter_map(|p| match p {
            WherePredicate::Type(t) => {
                Some(json!({"n":txt(&t.bounded_ty),"b":txt(&t.bounds)}))
            }
            _ => None,
        })
        .collect();
    json!({"ps":ps,"where":w})
}

fn sig(s: &Signature, attrs: &[Attribute], b: Option<&Block>, l: usize) -> Value {
    let ps: Vec<Value> = s
        .inputs
        .iter()
        .map(|a| match a {
            FnArg::Receiver(r) => json!({"k":"self","ref":r.reference.is_some(),"mut":r.mutability.is_some()}),
            FnArg::Typed(t) => json!({"k":"arg","pat":pat(&t.pat),"ty":ty(&t.ty)}),
        })
        .collect();
    let ret = match &s.output {
        ReturnType::Default => Value::Null,
        ReturnType::Type(_, t) => ty(t),
    };
    json!({"k":"fn","n":s.ident.to_string(),"ps":ps,"ret":ret,"gen":generics(&s.generics),
        "attrs":attrs_json(attrs),"body":b.map(block).unwrap_or(Value::Null),"line":l,
        "unsafe":s.unsafety.is_some()})
}

fn item(i: &Item) -> Value {
    match i {
        Item::Fn(f) => {
            if is_cfg_test(&f.attrs) {
                return Value::Null;
            }
            sig(&f.sig, &f.attrs, Some(&f.block), line(&f.sig))
        }
        Item::Impl(im) => {
            if is_cfg_test(&im.attrs) {
                return Value::Null;
            }
            let items: Vec<Value> = im
                .items
                .iter()
                .filter_map(|x| match x {
                    ImplItem::Fn(f) if !is_cfg_test(&f.attrs) => {
                        Some(sig(&f.sig, &f.attrs, Some(&f.block), line(&f.sig)))
                    }
                    ImplItem::Const(c) => {
                        Some(json!({"k":"const","n":c.ident.to_string(),"e":expr(&c.expr)}))
                    }
                    ImplItem::Type(t) => {
                        Some(json!({"k":"atype","n":t.ident.to_string(),"t":ty(&t.ty)}))
                    }
                    _ => None,
                })
                .collect();
            json!({"k":"impl","trait": im.trait_.as_ref().map(|t| path(&t.1)).unwrap_or(Value::Null),
                "self":ty(&im.self_ty),"gen":generics(&im.generics),"items":items,
                "attrs":attrs_json(&im.attrs),"line":line(im)})
        }
        Item::Struct(s) => {
            let fs: Vec<Value> = s
                .fields
                .iter()
                .enumerate()
                .map(|(i, f)| {
                    json!({"n":f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()),"t":ty(&f.ty),
                        "vis": txt(&f.vis)})
                })
                .collect();
            json!({"k":"structdef","n":s.ident.to_string(),"gen":generics(&s.generics),"fs":fs,"attrs":attrs_json(&s.attrs),
                "tuple": matches!(s.fields, Fields::Unnamed(_))})
        }
        Item::Enum(e) => json!({"k":"enum","n":e.ident.to_string(),
            "vs":e.variants.iter().map(|v| json!({"n":v.ident.to_string(),
               "fs":v.fields.iter().enumerate().map(|(i,f)| json!(f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()))).collect::<Vec<_>>()})).collect::<Vec<_>>()}),
        Item::Trait(t) => {
            let items: Vec<Value> = t
                .items
                .iter()
                .filter_map(|x| match x {
                    TraitItem::Fn(f) => Some(sig(&f.sig, &f.attrs, f.default.as_ref(), line(&f.sig))),
                    _ => None,
                })
                .collect();
            json!({"k":"trait","n":t.ident.to_string(),"items":items,"super":txt(&t.supertraits)})
        }
        Item::Mod(m) => {
            if is_cfg_test(&m.attrs) {
                return Value::Null;
            }
            match &m.content {
                Some((_, items)) => json!({"k":"mod","n":m.ident.to_string(),
                    "items":items.iter().map(item).filter(|v| !v.is_null()).collect::<Vec<_>>()}),
                None => json!({"k":"moddecl","n":m.ident.to_string()}),
            }
        }
        Item::Const(c) => json!({"k":"const","n":c.ident.to_string(),"e":expr(&c.expr)}),
        Item::Static(c) => json!({"k":"const","n":c.ident.to_string(),"e":expr(&c.expr)}),
        Item::Type(t) => json!({"k":"type","n":t.ident.to_string(),"gen":generics(&t.generics),"t":ty(&t.ty)}),
        Item::Use(u) => json!({"k":"use","txt":txt(&u.tree)}),
        other => json!({"k":"other","txt":txt(other).chars().take(80).collect::<String>()}),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = &args[1];
    let mut out = serde_json::Map::new();
    for f in &args[2..] {
        let p = format!("{}/{}", root, f);
        let src = std::fs::read_to_string(&p).unwrap_or_default();
        match parse_file(&src) {
            Ok(file) => {
                let items: Vec<Value> = file.items.iter().map(item).filter(|v| !v.is_null()).collect();
                out.insert(f.clone(), json!({"items":items}));
            }
            Err(e) => {
                out.insert(f.clone(), json!({"error":e.to_string()}));
            }
        }
    }
    println!("{}", Value::Object(out));
}
