//! Drives cddl-cat through its public interface and records what it does.
//!
//! Reads one case per line (JSON) on stdin, performs its events in order, and
//! writes one line of results, in the form the specification uses.

use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Mutex, OnceLock};

use cddl_cat::ast;
use cddl_cat::context::{BasicContext, LookupContext};
use cddl_cat::flatten::{flatten, flatten_from_str, slice_flatten, slice_flatten_from_str};
use cddl_cat::ivt::{self, Control, Literal, Node, Rule, RuleDef};
use cddl_cat::parser::{parse_cddl, slice_parse_cddl, ParseError};
use cddl_cat::{ValidateError, ValidateResult};
use serde_json::{json, Map, Value as J};

// ---------------------------------------------------------------- results

fn kind(e: &ValidateError) -> &'static str {
    match e {
        ValidateError::ParseError(_) => "parse",
        ValidateError::Structural(_) => "structural",
        ValidateError::Mismatch(_) => "mismatch",
        ValidateError::MapCut(_) => "mapcut",
        ValidateError::MissingRule(_) => "missing",
        ValidateError::Unsupported(_) => "unsupported",
        ValidateError::ValueError(_) => "value",
        ValidateError::GenericError => "generic",
        _ => "other",
    }
}

/// Do errors have to say what they are about?
fn naming() -> bool {
    static ASKED: OnceLock<bool> = OnceLock::new();
    *ASKED.get_or_init(|| std::env::var_os("NAMES").is_some())
}

/// The kind of an error, and the name it is about.
fn about(e: &ValidateError) -> String {
    let k = kind(e);
    match e {
        ValidateError::MissingRule(n) if naming() => format!("{}@{}", k, n),
        // errors made by our own context
        ValidateError::Structural(m) | ValidateError::Unsupported(m) | ValidateError::ValueError(m)
            if naming() && m.starts_with('@') =>
        {
            format!("{}{}", k, m)
        }
        _ => k.into(),
    }
}

fn outcome(r: ValidateResult) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(e) => {
            // Rendering the error must not fail either.
            let shown = format!("{} {:?}", e, e);
            if let ValidateError::MissingRule(n) = &e {
                if naming() && !shown.contains(n.as_str()) {
                    return "silent".into();
                }
            }
            about(&e)
        }
    }
}

fn parse_kind(e: &ParseError) -> String {
    let _ = format!("{} {:?}", e, e);
    format!("{:?}", e.kind)
}

// ---------------------------------------------------------------- syntax trees

fn cps(s: &str) -> J {
    J::Array(s.chars().map(|c| json!(c as u32)).collect())
}

fn mag(n: u128) -> J {
    let b = n.to_be_bytes();
    let skip = b.iter().take_while(|x| **x == 0).count();
    J::Array(b[skip..].iter().map(|x| json!(x)).collect())
}

fn bytes(b: &[u8]) -> J {
    J::Array(b.iter().map(|x| json!(x)).collect())
}

fn value(v: &ast::Value) -> J {
    match v {
        ast::Value::Text(s) => json!({"t": "text", "c": cps(s)}),
        ast::Value::Uint(n) => json!({"t": "int", "neg": false, "mag": mag(u128::from(*n))}),
        ast::Value::Nint(n) => {
            json!({"t": "int", "neg": *n < 0, "mag": mag(i128::from(*n).unsigned_abs())})
        }
        ast::Value::Float(f) => json!({"t": "float", "b": bytes(&f.to_bits().to_be_bytes())}),
        ast::Value::Bytes(b) => json!({"t": "bytes", "b": bytes(b)}),
    }
}

fn name(k: &str, n: &ast::NameGeneric) -> J {
    let args: Vec<J> = n.generic_args.iter().map(type1).collect();
    json!({"k": k, "n": n.name, "args": args})
}

fn type2(t: &ast::Type2) -> J {
    match t {
        ast::Type2::Value(v) => json!({"k": "val", "v": value(v)}),
        ast::Type2::Typename(n) => name("name", n),
        ast::Type2::Parethesized(t) => json!({"k": "paren", "t": ty(t)}),
        ast::Type2::Map(g) => json!({"k": "map", "g": group(g)}),
        ast::Type2::Array(g) => json!({"k": "array", "g": group(g)}),
        ast::Type2::Unwrap(n) => name("unwrap", n),
        ast::Type2::ChoiceifyInline(g) => json!({"k": "cin", "g": group(g)}),
        ast::Type2::Choiceify(n) => name("cify", n),
    }
}

fn type1(t: &ast::Type1) -> J {
    match t {
        ast::Type1::Simple(x) => json!({"k": "simple", "x": type2(x)}),
        ast::Type1::Range(r) => {
            json!({"k": "range", "s": type2(&r.start), "e": type2(&r.end), "inc": r.inclusive})
        }
        ast::Type1::Control(c) => {
            json!({"k": "ctl", "x": type2(&c.target), "op": c.op, "arg": type2(&c.arg)})
        }
    }
}

fn ty(t: &ast::Type) -> J {
    J::Array(t.0.iter().map(type1).collect())
}

fn group(g: &ast::Group) -> J {
    J::Array(
        g.0.iter()
            .map(|c| J::Array(c.0.iter().map(grpent).collect()))
            .collect(),
    )
}

fn occ(o: &Option<ast::Occur>) -> J {
    match o {
        None => json!({"k": "one"}),
        Some(ast::Occur::Optional) => json!({"k": "opt"}),
        Some(ast::Occur::ZeroOrMore) => json!({"k": "star"}),
        Some(ast::Occur::OneOrMore) => json!({"k": "plus"}),
        Some(ast::Occur::Numbered(lo, hi)) => {
            let h = if *hi == usize::MAX {
                json!([-1])
            } else {
                mag(*hi as u128)
            };
            json!({"k": "num", "lo": mag(*lo as u128), "hi": h})
        }
    }
}

fn grpent(e: &ast::GrpEnt) -> J {
    let o = occ(&e.occur);
    match &e.val {
        ast::GrpEntVal::Member(m) => {
            let key = match &m.key {
                None => json!({"k": "none"}),
                Some(k) => match &k.val {
                    ast::MemberKeyVal::Type1(t) => {
                        json!({"k": "t1", "x": type1(t), "cut": k.cut})
                    }
                    ast::MemberKeyVal::Bareword(s) => {
                        json!({"k": "bare", "c": cps(s), "cut": k.cut})
                    }
                    ast::MemberKeyVal::Value(v) => {
                        json!({"k": "val", "v": value(v), "cut": k.cut})
                    }
                },
            };
            json!({"k": "member", "occ": o, "key": key, "v": ty(&m.value)})
        }
        ast::GrpEntVal::Groupname(n) => json!({"k": "name", "occ": o, "n": n}),
        ast::GrpEntVal::Parenthesized(g) => json!({"k": "paren", "occ": o, "g": group(g)}),
    }
}

fn rule(r: &ast::Rule) -> J {
    let (k, v) = match &r.val {
        ast::RuleVal::AssignType(t) => ("type", ty(t)),
        ast::RuleVal::AssignGroup(g) => ("group", grpent(g)),
    };
    json!({"name": r.name, "parms": r.generic_parms, "k": k, "v": v})
}

// ---------------------------------------------------------------- built rules

fn nodes(k: &str, f: &str, l: &[Node]) -> J {
    json!({"k": k, f: l.iter().map(node).collect::<Vec<J>>()})
}

fn reference(k: &str, r: &Rule) -> J {
    let args: Vec<J> = r.generic_args.iter().map(node).collect();
    json!({"k": k, "n": r.name, "args": args})
}

fn control(op: &str, x: &Node, arg: &Node) -> J {
    json!({"k": "ctl", "op": op, "x": node(x), "arg": node(arg)})
}

fn literal(l: &Literal) -> J {
    match l {
        Literal::Bool(b) => json!({"t": "bool", "v": b}),
        Literal::Int(n) => json!({"t": "int", "neg": *n < 0, "mag": mag(n.unsigned_abs())}),
        Literal::Float(f) => json!({"t": "float", "b": bytes(&f.to_bits().to_be_bytes())}),
        Literal::Text(s) => json!({"t": "text", "c": cps(s)}),
        Literal::Bytes(b) => json!({"t": "bytes", "b": bytes(b)}),
    }
}

fn node(n: &Node) -> J {
    // Showing it must not fail either.
    let _ = format!("{} {:?}", n, n);
    match n {
        Node::Literal(l) => json!({"k": "lit", "v": literal(l)}),
        Node::PreludeType(p) => json!({"k": "prel", "p": format!("{}", p).to_lowercase()}),
        Node::Rule(r) => reference("rule", r),
        Node::Unwrap(r) => reference("unwrap", r),
        Node::Choiceify(r) => reference("cify", r),
        Node::Choice(c) => nodes("choice", "o", &c.options),
        Node::Map(m) => nodes("map", "m", &m.members),
        Node::Array(m) => nodes("array", "m", &m.members),
        Node::Group(m) => nodes("group", "m", &m.members),
        Node::ChoiceifyInline(m) => nodes("cin", "m", &m.members),
        Node::KeyValue(kv) => {
            json!({"k": "kv", "key": node(&kv.key), "val": node(&kv.value), "cut": kv.cut})
        }
        Node::Occur(o) => {
            let (lo, hi) = o.limits();
            let _ = format!("{}", o);
            json!({"k": "occ", "lo": lo.min(1_000_000_000), "hi": hi.min(1_000_000_000),
                   "x": node(&o.node)})
        }
        Node::Range(r) => {
            let _ = format!("{}", r);
            json!({"k": "range", "s": node(&r.start), "e": node(&r.end), "inc": r.inclusive})
        }
        Node::Control(c) => match c {
            Control::Size(c) => control("size", &c.target, &c.size),
            Control::Lt(c) => control("lt", &c.target, &c.lt),
            Control::Le(c) => control("le", &c.target, &c.le),
            Control::Gt(c) => control("gt", &c.target, &c.gt),
            Control::Ge(c) => control("ge", &c.target, &c.ge),
            Control::Regexp(_) => json!({"k": "re"}),
            Control::Cbor(_) => json!({"k": "cbor"}),
            _ => json!({"k": "other"}),
        },
    }
}

// ---------------------------------------------------------------- trees made by hand

fn usize_of(m: &J) -> usize {
    m.as_array()
        .unwrap()
        .iter()
        .fold(0u128, |a, b| a * 256 + u128::from(b.as_u64().unwrap()))
        .min(usize::MAX as u128) as usize
}

fn i128_of(v: &J) -> i128 {
    let a = v["mag"]
        .as_array()
        .unwrap()
        .iter()
        .fold(0u128, |a, b| a * 256 + u128::from(b.as_u64().unwrap()));
    if v["neg"].as_bool().unwrap() {
        (a as i128).wrapping_neg()
    } else {
        a as i128
    }
}

fn bytes_of(v: &J) -> Vec<u8> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_u64().unwrap() as u8)
        .collect()
}

fn f64_of(v: &J) -> f64 {
    f64::from_bits(bytes_of(v).iter().fold(0u64, |a, b| a << 8 | u64::from(*b)))
}

fn string_of(v: &J) -> String {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| char::from_u32(x.as_u64().unwrap() as u32).unwrap())
        .collect()
}

fn is(v: &J, k: &str) -> bool {
    v[k].as_bool().unwrap()
}

fn string(v: &J, k: &str) -> String {
    v[k].as_str().unwrap().to_string()
}

fn list<T>(v: &J, f: fn(&J) -> T) -> Vec<T> {
    v.as_array().unwrap().iter().map(f).collect()
}

fn to_literal(v: &J) -> Literal {
    match v["t"].as_str().unwrap() {
        "bool" => Literal::Bool(is(v, "v")),
        "int" => Literal::Int(i128_of(v)),
        "float" => Literal::Float(f64_of(&v["b"])),
        "text" => Literal::Text(string_of(&v["c"])),
        "bytes" => Literal::Bytes(bytes_of(&v["b"])),
        x => panic!("literal {}", x),
    }
}

fn to_prelude(p: &str) -> ivt::PreludeType {
    use ivt::PreludeType::*;
    match p {
        "any" => Any,
        "nil" => Nil,
        "bool" => Bool,
        "int" => Int,
        "uint" => Uint,
        "nint" => Nint,
        "float" => Float,
        "tstr" => Tstr,
        "bstr" => Bstr,
        x => panic!("prelude {}", x),
    }
}

/// A node of a kind whose content is not public, taken from rules built from text.
fn from_text(text: &str) -> Node {
    flatten_from_str(text).unwrap()["x"].node.clone()
}

fn to_rule(n: &J) -> Rule {
    let args = list(&n["args"], to_node);
    if args.is_empty() {
        Rule::new_name(n["n"].as_str().unwrap())
    } else {
        Rule::new(n["n"].as_str().unwrap(), args)
    }
}

fn boxed(n: &J) -> Box<Node> {
    Box::new(to_node(n))
}

fn to_node(n: &J) -> Node {
    match n["k"].as_str().unwrap() {
        "lit" => Node::Literal(to_literal(&n["v"])),
        "prel" => Node::PreludeType(to_prelude(n["p"].as_str().unwrap())),
        "rule" => Node::Rule(to_rule(n)),
        "unwrap" => Node::Unwrap(to_rule(n)),
        "cify" => Node::Choiceify(to_rule(n)),
        "choice" => Node::Choice(ivt::Choice {
            options: list(&n["o"], to_node),
        }),
        "map" => Node::Map(ivt::Map {
            members: list(&n["m"], to_node),
        }),
        "array" => Node::Array(ivt::Array {
            members: list(&n["m"], to_node),
        }),
        "group" => Node::Group(ivt::Group {
            members: list(&n["m"], to_node),
        }),
        "cin" => Node::ChoiceifyInline(ivt::Array {
            members: list(&n["m"], to_node),
        }),
        "kv" => Node::KeyValue(ivt::KeyValue::new(
            to_node(&n["key"]),
            to_node(&n["val"]),
            is(n, "cut"),
        )),
        "occ" => {
            let (lo, hi) = (n["lo"].as_u64().unwrap(), n["hi"].as_u64().unwrap());
            let much = |x: u64| if x >= 1_000_000_000 { usize::MAX } else { x as usize };
            let limit = match (lo, hi, is(n, "num")) {
                (0, 1, false) => ivt::OccurLimit::Optional,
                (0, 1_000_000_000, false) => ivt::OccurLimit::ZeroOrMore,
                (1, 1_000_000_000, false) => ivt::OccurLimit::OneOrMore,
                _ => ivt::OccurLimit::Numbered(much(lo), much(hi)),
            };
            Node::Occur(ivt::Occur::new(limit, to_node(&n["x"])))
        }
        "range" => Node::Range(ivt::Range {
            start: boxed(&n["s"]),
            end: boxed(&n["e"]),
            inclusive: is(n, "inc"),
        }),
        "ctl" => {
            let (target, arg) = (boxed(&n["x"]), boxed(&n["arg"]));
            Node::Control(match n["op"].as_str().unwrap() {
                "size" => Control::Size(ivt::CtlOpSize { target, size: arg }),
                "lt" => Control::Lt(ivt::CtlOpLt { target, lt: arg }),
                "le" => Control::Le(ivt::CtlOpLe { target, le: arg }),
                "gt" => Control::Gt(ivt::CtlOpGt { target, gt: arg }),
                "ge" => Control::Ge(ivt::CtlOpGe { target, ge: arg }),
                x => panic!("operator {}", x),
            })
        }
        "re" => from_text(&format!("x = tstr .regexp \"{}\"", string_of(&n["p"]).replace('\\', "\\\\").replace('"', "\\\""))),
        "cbor" => from_text(&format!("x = bstr .cbor {}", n["x"]["n"].as_str().unwrap())),
        x => panic!("node {}", x),
    }
}

fn to_value(x: &J) -> ast::Value {
    let v = &x["v"];
    match v["t"].as_str().unwrap() {
        "text" => ast::Value::Text(string_of(&v["c"])),
        "int" => match u64::try_from(i128_of(v)) {
            Ok(n) if x["nint"] != json!(true) => ast::Value::Uint(n),
            _ => ast::Value::Nint(i64::try_from(i128_of(v)).unwrap()),
        },
        "float" => ast::Value::Float(f64_of(&v["b"])),
        "bytes" => ast::Value::Bytes(bytes_of(&v["b"])),
        x => panic!("value {}", x),
    }
}

fn to_name(n: &J) -> ast::NameGeneric {
    ast::NameGeneric {
        name: string(n, "n"),
        generic_args: list(&n["args"], to_type1),
    }
}

fn to_type2(x: &J) -> ast::Type2 {
    match x["k"].as_str().unwrap() {
        "val" => ast::Type2::Value(to_value(x)),
        "name" => ast::Type2::Typename(to_name(x)),
        "paren" => ast::Type2::Parethesized(to_type(&x["t"])),
        "map" => ast::Type2::Map(to_group(&x["g"])),
        "array" => ast::Type2::Array(to_group(&x["g"])),
        "unwrap" => ast::Type2::Unwrap(to_name(x)),
        "cin" => ast::Type2::ChoiceifyInline(to_group(&x["g"])),
        "cify" => ast::Type2::Choiceify(to_name(x)),
        k => panic!("type {}", k),
    }
}

fn to_type1(t: &J) -> ast::Type1 {
    match t["k"].as_str().unwrap() {
        "simple" => ast::Type1::Simple(to_type2(&t["x"])),
        "range" => ast::Type1::Range(ast::TypeRange {
            start: to_type2(&t["s"]),
            end: to_type2(&t["e"]),
            inclusive: is(t, "inc"),
        }),
        "ctl" => ast::Type1::Control(ast::TypeControl {
            target: to_type2(&t["x"]),
            arg: to_type2(&t["arg"]),
            op: string(t, "op"),
        }),
        k => panic!("type {}", k),
    }
}

fn to_type(t: &J) -> ast::Type {
    ast::Type(list(t, to_type1))
}

fn to_group(g: &J) -> ast::Group {
    ast::Group(list(g, |c| ast::GrpChoice(list(c, to_grpent))))
}

fn to_grpent(e: &J) -> ast::GrpEnt {
    let o = &e["occ"];
    let occur = match o["k"].as_str().unwrap() {
        "one" => None,
        "opt" => Some(ast::Occur::Optional),
        "star" => Some(ast::Occur::ZeroOrMore),
        "plus" => Some(ast::Occur::OneOrMore),
        _ => Some(ast::Occur::Numbered(
            usize_of(&o["lo"]),
            if o["hi"] == json!([-1]) { usize::MAX } else { usize_of(&o["hi"]) },
        )),
    };
    let val = match e["k"].as_str().unwrap() {
        "member" => {
            let k = &e["key"];
            let val = match k["k"].as_str().unwrap() {
                "none" => None,
                "t1" => Some(ast::MemberKeyVal::Type1(to_type1(&k["x"]))),
                "bare" => Some(ast::MemberKeyVal::Bareword(string_of(&k["c"]))),
                _ => Some(ast::MemberKeyVal::Value(to_value(k))),
            };
            ast::GrpEntVal::Member(ast::Member {
                key: val.map(|val| ast::MemberKey { val, cut: is(k, "cut") }),
                value: to_type(&e["v"]),
            })
        }
        "name" => ast::GrpEntVal::Groupname(string(e, "n")),
        _ => ast::GrpEntVal::Parenthesized(to_group(&e["g"])),
    };
    ast::GrpEnt { occur, val }
}

fn to_ast_rule(r: &J) -> ast::Rule {
    ast::Rule {
        name: string(r, "name"),
        generic_parms: list(&r["parms"], |p| p.as_str().unwrap().to_string()),
        val: if r["k"] == "type" {
            ast::RuleVal::AssignType(to_type(&r["v"]))
        } else {
            ast::RuleVal::AssignGroup(to_grpent(&r["v"]))
        },
    }
}

// ---------------------------------------------------------------- decoded data

#[cfg(any(feature = "json", feature = "cbor"))]
fn seen(v: &cddl_cat::value::Value) -> J {
    use cddl_cat::value::Value as V;
    match v {
        V::Null => json!({"t": "null"}),
        V::Bool(b) => json!({"t": "bool", "v": b}),
        V::Integer(n) => json!({"t": "int", "neg": *n < 0, "mag": mag(n.unsigned_abs())}),
        // which of the many NaNs depends on how narrower ones are widened
        V::Float(f) if f.0.is_nan() => json!({"t": "float", "b": [127, 248, 0, 0, 0, 0, 0, 0]}),
        V::Float(f) => json!({"t": "float", "b": bytes(&f.0.to_bits().to_be_bytes())}),
        V::Bytes(b) => json!({"t": "bytes", "b": bytes(b)}),
        V::Text(s) => json!({"t": "text", "c": cps(s)}),
        V::Array(a) => json!({"t": "array", "a": a.iter().map(seen).collect::<Vec<J>>()}),
        V::Map(m) => {
            json!({"t": "map", "m": m.iter().map(|(k, v)| json!([seen(k), seen(v)])).collect::<Vec<J>>()})
        }
    }
}

/// The common form of decoded data, made from a reference and from the thing itself;
/// validation of the decoded thing itself has to find the same.
#[cfg(any(feature = "json", feature = "cbor"))]
fn common<D>(d: D, judge: fn(&RuleDef, &D, &dyn LookupContext) -> Result<(), ValidateError>) -> J
where
    for<'a> cddl_cat::value::Value: TryFrom<&'a D, Error = ValidateError> + TryFrom<D, Error = ValidateError>,
{
    use cddl_cat::value::Value as V;
    let any = RuleDef {
        generic_parms: vec![],
        node: ivt::Node::PreludeType(ivt::PreludeType::Any),
    };
    let whole = judge(&any, &d, &BasicContext::new(ivt::RulesByName::new()));
    let one: Result<V, ValidateError> = V::try_from(&d);
    let two: Result<V, ValidateError> = V::try_from(d);
    match (one, two) {
        (Ok(a), Ok(b)) => {
            let _ = format!("{:?}", a);
            if whole.is_ok() && a == b && a.cmp(&b) == std::cmp::Ordering::Equal {
                seen(&a)
            } else {
                json!({"t": "differs"})
            }
        }
        (Err(a), Err(b)) if kind(&a) == "value" && kind(&b) == "value" => match whole {
            Err(c) if kind(&c) == "value" => json!({"t": "bad"}),
            _ => json!({"t": "differs"}),
        },
        _ => json!({"t": "differs"}),
    }
}

#[cfg(feature = "json")]
fn data_json(s: &str) -> J {
    match serde_json::from_str::<serde_json::Value>(s) {
        Ok(v) => common(v, cddl_cat::json::validate_json),
        Err(_) => json!({"t": "bad"}),
    }
}
#[cfg(not(feature = "json"))]
fn data_json(_: &str) -> J {
    json!("n/a")
}
#[cfg(feature = "cbor")]
fn data_cbor(b: &[u8]) -> J {
    match ciborium::from_reader::<ciborium::Value, _>(b) {
        Ok(v) => common(v, cddl_cat::cbor::validate_cbor),
        Err(_) => json!({"t": "bad"}),
    }
}
#[cfg(not(feature = "cbor"))]
fn data_cbor(_: &[u8]) -> J {
    json!("n/a")
}

/// A document as it is validated.
fn thing(d: &Doc) -> Option<cddl_cat::value::Value> {
    match d {
        #[cfg(feature = "json")]
        Doc::Json(s) => serde_json::from_str::<serde_json::Value>(s).ok().and_then(|v| v.try_into().ok()),
        #[cfg(feature = "cbor")]
        Doc::Cbor(b) => ciborium::from_reader::<ciborium::Value, _>(&b[..]).ok().and_then(|v| v.try_into().ok()),
        #[allow(unreachable_patterns)]
        _ => None,
    }
}

/// The order of two values, if all the ways to compare them agree.
fn ordered(x: &cddl_cat::value::Value, y: &cddl_cat::value::Value) -> i64 {
    use std::cmp::Ordering::*;
    let o = x.cmp(y);
    let mut m = std::collections::BTreeMap::new();
    m.insert(x.clone(), 1);
    m.insert(y.clone(), 2);
    let agreed = x.partial_cmp(y) == Some(o)
        && (x == y) == (o == Equal)
        && (x != y) == (o != Equal)
        && (x < y) == (o == Less)
        && (x >= y) == (o != Less)
        && m.len() == if o == Equal { 1 } else { 2 }
        && m.get(y) == Some(&2)
        && x.clone().max(y.clone()) == *if o == Greater { x } else { y };
    match o {
        _ if !agreed => 8,
        Less => -1,
        Equal => 0,
        Greater => 1,
    }
}

/// What a node tells about itself and next to another one.
fn told(n: &Node, m: &Node) -> J {
    let mut own = json!([]);
    let (mut lim, mut sym) = (json!([]), json!([]));
    match n {
        Node::Occur(o) => {
            let (lo, hi) = o.limits();
            own = cps(&format!("{}", o));
            lim = json!([mag(lo as u128), mag(hi as u128)]);
            sym = cps(&o.symbol());
        }
        Node::Range(r) => own = cps(&format!("{}", r)),
        _ => (),
    }
    let shown = format!("{}", n);
    // Parts of nodes show and are made as the nodes are.
    let copy = match n {
        Node::Literal(l) => {
            let made = match l.clone() {
                Literal::Bool(b) => ivt::literal_bool(b),
                Literal::Int(i) => ivt::literal_int(i),
                Literal::Float(f) => ivt::literal_float(f),
                Literal::Text(s) => ivt::literal_text(s),
                Literal::Bytes(b) => ivt::literal_bytes(b),
            };
            format!("{}", l) == shown && node(&made) == node(n)
        }
        Node::PreludeType(p) => format!("{}", p) == shown,
        Node::KeyValue(kv) => {
            format!("{}", kv) == shown
                && node(&Node::KeyValue(ivt::KeyValue::new((*kv.key).clone(), (*kv.value).clone(), kv.cut))) == node(n)
        }
        Node::Rule(r) | Node::Unwrap(r) | Node::Choiceify(r) => {
            let made = Rule::new(&r.name, r.generic_args.clone());
            made.name == r.name && made.generic_args.len() == r.generic_args.len()
        }
        _ => true,
    };
    let size = match cddl_cat::normalize::normalize_size_range(n) {
        Ok(r) => json!([node(&Node::Range(r))]),
        Err(ValidateError::Structural(_)) => json!([]),
        Err(_) => json!("differs"),
    };
    let same = n == m;
    json!({"show": cps(&shown), "own": own, "lim": lim, "sym": sym, "size": size, "same": same,
        "copy": copy && (m == n) == same && (n != m) != same && node(&n.clone()) == node(n)})
}

// ---------------------------------------------------------------- contexts

/// A caller-defined lookup: several contexts stacked, names mapped to other
/// names, some answered with an error.  Every question is recorded.
struct Custom {
    layers: Vec<BasicContext>,
    rename: Map<String, J>,
    errs: Map<String, J>,
    asked: Mutex<Vec<String>>,
}

fn make_error(k: &str, n: &str) -> ValidateError {
    match k {
        "structural" => ValidateError::Structural(format!("@{}", n)),
        "unsupported" => ValidateError::Unsupported(format!("@{}", n)),
        "value" => ValidateError::ValueError(format!("@{}", n)),
        "generic" => ValidateError::GenericError,
        // Not the name asked for.
        _ => ValidateError::MissingRule(format!("@{}", n)),
    }
}

impl LookupContext for Custom {
    fn lookup_rule<'a>(&'a self, name: &str) -> Result<&'a RuleDef, ValidateError> {
        self.asked.lock().unwrap().push(name.to_string());
        if let Some(e) = self.errs.get(name) {
            return Err(make_error(e.as_str().unwrap(), name));
        }
        let target = match self.rename.get(name) {
            Some(n) => n.as_str().unwrap(),
            None => name,
        };
        for l in &self.layers {
            if let Ok(r) = l.lookup_rule(target) {
                return Ok(r);
            }
        }
        Err(ValidateError::MissingRule(name.into()))
    }
}

enum Ctx {
    Basic(BasicContext),
    Custom(Custom),
}

impl Ctx {
    fn dynamic(&self) -> &dyn LookupContext {
        match self {
            Ctx::Basic(c) => c,
            Ctx::Custom(c) => c,
        }
    }
}

// ---------------------------------------------------------------- data

enum Doc {
    Json(String),
    Cbor(Vec<u8>),
}

fn doc(d: &J) -> Doc {
    if let Some(s) = d.get("json") {
        Doc::Json(s.as_str().unwrap().to_string())
    } else {
        let a = d["cbor"].as_array().unwrap();
        Doc::Cbor(a.iter().map(|x| x.as_u64().unwrap() as u8).collect())
    }
}

#[cfg(feature = "json")]
fn one_json(rule: &str, text: &str, d: &str) -> String {
    outcome(cddl_cat::validate_json_str(rule, text, d))
}
#[cfg(not(feature = "json"))]
fn one_json(_: &str, _: &str, _: &str) -> String {
    "n/a".into()
}
#[cfg(feature = "cbor")]
fn one_cbor(rule: &str, text: &str, d: &[u8]) -> String {
    outcome(cddl_cat::validate_cbor_bytes(rule, text, d))
}
#[cfg(not(feature = "cbor"))]
fn one_cbor(_: &str, _: &str, _: &[u8]) -> String {
    "n/a".into()
}

fn one_call(rule: &str, text: &str, d: &Doc) -> String {
    match d {
        Doc::Json(s) => one_json(rule, text, s),
        Doc::Cbor(b) => one_cbor(rule, text, b),
    }
}

#[cfg(feature = "json")]
fn pre_json(def: &RuleDef, d: &str, ctx: &dyn LookupContext) -> String {
    match serde_json::from_str::<serde_json::Value>(d) {
        Ok(v) => outcome(cddl_cat::validate_json(def, &v, ctx)),
        Err(_) => "value".into(),
    }
}
#[cfg(not(feature = "json"))]
fn pre_json(_: &RuleDef, _: &str, _: &dyn LookupContext) -> String {
    "n/a".into()
}
#[cfg(feature = "cbor")]
fn pre_cbor(def: &RuleDef, d: &[u8], ctx: &dyn LookupContext) -> String {
    match ciborium::from_reader::<ciborium::Value, _>(d) {
        Ok(v) => outcome(cddl_cat::validate_cbor(def, &v, ctx)),
        Err(_) => "value".into(),
    }
}
#[cfg(not(feature = "cbor"))]
fn pre_cbor(_: &RuleDef, _: &[u8], _: &dyn LookupContext) -> String {
    "n/a".into()
}

/// Validation with data and rules decoded beforehand.
fn pre_call(ctx: &dyn LookupContext, rule: &str, d: &Doc) -> String {
    let def = match ctx.lookup_rule(rule) {
        Ok(d) => d,
        Err(e) => return about(&e),
    };
    match d {
        Doc::Json(s) => pre_json(def, s, ctx),
        Doc::Cbor(b) => pre_cbor(def, b, ctx),
    }
}

// ---------------------------------------------------------------- events

struct Case {
    texts: Vec<String>,
    docs: Vec<Doc>,
    ctxs: Vec<Option<Ctx>>,
}

fn idx(e: &J, k: &str) -> usize {
    e[k].as_u64().unwrap() as usize - 1
}

fn rules_of(text: &str) -> J {
    match parse_cddl(text) {
        Ok(c) => json!({"e": "", "rules": c.rules.iter().map(rule).collect::<Vec<J>>()}),
        Err(e) => json!({"e": parse_kind(&e), "rules": []}),
    }
}

fn names(mut v: Vec<String>) -> J {
    v.sort();
    json!({"e": "", "names": v})
}

fn failed(e: &ValidateError) -> J {
    let _ = format!("{} {:?}", e, e);
    json!({"e": kind(e), "names": []})
}

fn event(c: &mut Case, e: &J) -> J {
    match e["a"].as_str().unwrap() {
        "parse" => rules_of(&c.texts[idx(e, "t")]),
        // Long texts: only how parsing ends.
        "bulk" => {
            let part = |k: &str| c.texts[idx(e, k)].as_str();
            let n = e["n"].as_u64().unwrap() as usize;
            let t = format!("{}{}{}", part("p"), part("m").repeat(n), part("q"));
            match (parse_cddl(&t), slice_parse_cddl(&t)) {
                (Ok(a), Ok(b)) if a.rules.len() == b.rules.len() => json!(""),
                (Err(a), Err(b)) if parse_kind(&a) == parse_kind(&b) => json!(parse_kind(&a)),
                _ => json!("differs"),
            }
        }
        // The rules built, one tree each.
        "tree" => match flatten_from_str(&c.texts[idx(e, "t")]) {
            Ok(r) => json!({"e": "", "rules": r.iter().map(|(n, d)|
                json!({"name": n, "parms": d.generic_parms, "node": node(&d.node)}))
                .collect::<Vec<J>>()}),
            Err(e) => json!({"e": kind(&e), "rules": []}),
        },
        // The rules built from a syntax tree made by hand.
        "flat" => {
            let all: Vec<ast::Rule> = list(&e["rules"], to_ast_rule);
            let with: Vec<(ast::Rule, String)> = list(&e["rules"], to_ast_rule)
                .into_iter()
                .map(|r| {
                    // Blanks, a comment and letters beyond ASCII: kept as they are.
                    let from = format!(" \t<{}> ; \u{e9}\r\n\n", r.name);
                    (r, from)
                })
                .collect();
            let sliced = slice_flatten(&ast::CddlSlice { rules: with });
            let tree = ast::Cddl { rules: all };
            match (flatten(&tree), sliced) {
                (Ok(r), Ok(s)) => {
                    let alike = r.len() == s.len()
                        && s.iter().all(|(n, (d, t))| {
                            *t == format!(" \t<{}> ; \u{e9}\r\n\n", n)
                                && r.get(n).is_some_and(|x| {
                                    format!("{:?}", x) == format!("{:?}", d)
                                        && node(&x.node) == node(&d.node)
                                        && x.generic_parms == d.generic_parms
                                })
                        });
                    json!({"e": if alike { "" } else { "differs" }, "rules": r.iter().map(|(n, d)|
                        json!({"name": n, "parms": d.generic_parms, "node": node(&d.node)}))
                        .collect::<Vec<J>>()})
                }
                (Err(x), Err(y)) if kind(&x) == kind(&y) => json!({"e": kind(&x), "rules": []}),
                _ => json!({"e": "differs", "rules": []}),
            }
        }
        // Documents under rules made by hand.
        "hand" => {
            let rules: ivt::RulesByName = e["rules"]
                .as_array()
                .unwrap()
                .iter()
                .map(|r| {
                    let def = RuleDef {
                        generic_parms: list(&r["parms"], |p| p.as_str().unwrap().to_string()),
                        node: to_node(&r["node"]),
                    };
                    let _ = format!("{} {:?}", def.node, def);
                    (string(r, "name"), def)
                })
                .collect();
            let x = BasicContext::new(rules);
            let r: Vec<String> = list(&e["ds"], |d| d.as_u64().unwrap() as usize - 1)
                .iter()
                .map(|d| pre_call(&x, e["rule"].as_str().unwrap(), &c.docs[*d]))
                .collect();
            json!(r)
        }
        // The common form of data.
        "data" => match &c.docs[idx(e, "d")] {
            Doc::Json(s) => data_json(s),
            Doc::Cbor(b) => data_cbor(b),
        },
        // One document compared with others.
        "cmp" => {
            let x = thing(&c.docs[idx(e, "d")]);
            let r: Vec<i64> = list(&e["ds"], |d| d.as_u64().unwrap() as usize - 1)
                .iter()
                .map(|d| match (&x, thing(&c.docs[*d])) {
                    (Some(x), Some(y)) => ordered(x, &y),
                    _ => 9,
                })
                .collect();
            json!(r)
        }
        // What nodes tell about themselves.
        "node" => told(&to_node(&e["n"]), &to_node(&e["m"])),
        // What a parse error points at.
        "where" => {
            let t = &c.texts[idx(e, "t")];
            let point = |x: &ParseError| json!({"e": parse_kind(x), "ctx": cps(&x.ctx)});
            let all = [
                parse_cddl(t).err().map(|x| point(&x)),
                slice_parse_cddl(t).err().map(|x| point(&x)),
                match flatten_from_str(t) {
                    Err(ValidateError::ParseError(x)) => Some(point(&x)),
                    _ => None,
                },
                match slice_flatten_from_str(t) {
                    Err(ValidateError::ParseError(x)) => Some(point(&x)),
                    _ => None,
                },
            ];
            if all.iter().any(|x| *x != all[0]) {
                return json!({"e": "differs", "ctx": []});
            }
            all[0]
                .clone()
                .unwrap_or_else(|| json!({"e": "", "ctx": []}))
        }
        "slices" => match slice_parse_cddl(&c.texts[idx(e, "t")]) {
            Ok(s) => {
                let (r, src): (Vec<J>, Vec<J>) =
                    s.rules.iter().map(|(r, s)| (rule(r), cps(s))).unzip();
                json!({"e": "", "rules": r, "src": src})
            }
            Err(e) => json!({"e": parse_kind(&e), "rules": [], "src": []}),
        },
        "build" => match flatten_from_str(&c.texts[idx(e, "t")]) {
            Ok(r) => names(r.keys().cloned().collect()),
            Err(e) => failed(&e),
        },
        // The tree built in two steps has to be the tree built in one.
        "build2" => {
            let t = &c.texts[idx(e, "t")];
            let two = parse_cddl(t)
                .map_err(ValidateError::from)
                .and_then(|a| flatten(&a));
            match (two, flatten_from_str(t)) {
                (Ok(r), Ok(s)) => {
                    if r != s {
                        return json!({"e": "differs", "names": []});
                    }
                    names(r.keys().cloned().collect())
                }
                (Err(e), Err(_)) => failed(&e),
                _ => json!({"e": "differs", "names": []}),
            }
        }
        k @ ("sbuild" | "sbuild2") => {
            let t = &c.texts[idx(e, "t")];
            let r = if k == "sbuild" {
                slice_flatten_from_str(t)
            } else {
                slice_parse_cddl(t)
                    .map_err(ValidateError::from)
                    .and_then(|a| slice_flatten(&a))
            };
            match r {
                Ok(r) => {
                    // The rule itself must be the one built without slices.
                    if let Ok(plain) = flatten_from_str(t) {
                        if plain.len() != r.len()
                            || r.iter().any(|(k, v)| plain.get(k) != Some(&v.0))
                        {
                            return json!({"e": "differs", "names": [], "src": []});
                        }
                    }
                    let mut l: Vec<(String, String)> =
                        r.into_iter().map(|(k, v)| (k, v.1)).collect();
                    l.sort();
                    let (n, src): (Vec<String>, Vec<J>) =
                        l.iter().map(|(n, s)| (n.clone(), cps(s))).unzip();
                    json!({"e": "", "names": n, "src": src})
                }
                Err(e) => json!({"e": kind(&e), "names": [], "src": []}),
            }
        }
        // Is this text understood the same way as that one?
        "same" => {
            let (a, b) = (&c.texts[idx(e, "t")], &c.texts[idx(e, "u")]);
            let x = match (flatten_from_str(a), flatten_from_str(b)) {
                (Ok(x), Ok(y)) => x == y,
                (Err(x), Err(y)) => kind(&x) == kind(&y),
                _ => false,
            };
            json!(if x { "same" } else { "differs" })
        }
        "one" => json!(one_call(
            e["rule"].as_str().unwrap(),
            &c.texts[idx(e, "t")],
            &c.docs[idx(e, "d")]
        )),
        // Many pairs of text and document.
        "ones" => J::Array(
            e["tds"]
                .as_array()
                .unwrap()
                .iter()
                .map(|p| {
                    let i = |k: usize| p[k].as_u64().unwrap() as usize - 1;
                    json!(one_call(
                        e["rule"].as_str().unwrap(),
                        &c.texts[i(0)],
                        &c.docs[i(1)]
                    ))
                })
                .collect(),
        ),
        // Documents in a context of our own, which notes what it is asked.
        "owns" => {
            let rules = match flatten_from_str(&c.texts[idx(e, "t")]) {
                Ok(r) => r,
                Err(x) => {
                    let n = e["ds"].as_array().unwrap().len();
                    return json!({"r": vec![kind(&x); n], "asked": []});
                }
            };
            let own = Custom {
                layers: vec![BasicContext::new(rules)],
                rename: Map::new(),
                errs: Map::new(),
                asked: Mutex::new(vec![]),
            };
            let r: Vec<String> = e["ds"]
                .as_array()
                .unwrap()
                .iter()
                .map(|d| {
                    pre_call(
                        &own,
                        e["rule"].as_str().unwrap(),
                        &c.docs[d.as_u64().unwrap() as usize - 1],
                    )
                })
                .collect();
            let mut a = own.asked.lock().unwrap().clone();
            a.sort();
            a.dedup();
            json!({"r": r, "asked": a})
        }
        // One document under two texts.
        "agree" => {
            let d = &c.docs[idx(e, "d")];
            json!([
                one_call(e["rule"].as_str().unwrap(), &c.texts[idx(e, "t")], d),
                one_call(e["rule2"].as_str().unwrap(), &c.texts[idx(e, "u")], d)
            ])
        }
        "load" => {
            let h = idx(e, "h");
            while c.ctxs.len() <= h {
                c.ctxs.push(None);
            }
            match flatten_from_str(&c.texts[idx(e, "t")]) {
                Ok(r) => {
                    c.ctxs[h] = Some(Ctx::Basic(BasicContext::new(r)));
                    json!("ok")
                }
                Err(e) => {
                    c.ctxs[h] = None;
                    json!(kind(&e))
                }
            }
        }
        "custom" => {
            let h = idx(e, "h");
            while c.ctxs.len() <= h {
                c.ctxs.push(None);
            }
            let mut layers = vec![];
            for t in e["layers"].as_array().unwrap() {
                match flatten_from_str(&c.texts[t.as_u64().unwrap() as usize - 1]) {
                    Ok(r) => layers.push(BasicContext::new(r)),
                    Err(e) => {
                        c.ctxs[h] = None;
                        return json!(kind(&e));
                    }
                }
            }
            c.ctxs[h] = Some(Ctx::Custom(Custom {
                layers,
                rename: e["rename"].as_object().unwrap().clone(),
                errs: e["errs"].as_object().unwrap().clone(),
                asked: Mutex::new(vec![]),
            }));
            json!("ok")
        }
        "call" => match &c.ctxs[idx(e, "h")] {
            None => json!("noctx"),
            Some(x) => {
                if let Ctx::Custom(k) = x {
                    k.asked.lock().unwrap().clear();
                }
                let (rule, d) = (e["rule"].as_str().unwrap(), &c.docs[idx(e, "d")]);
                let mut r = pre_call(x.dynamic(), rule, d);
                // Again and again: always the same.
                for _ in 1..e["rep"].as_u64().unwrap_or(1) {
                    let again = pre_call(x.dynamic(), rule, d);
                    if again != r {
                        r = "unsteady".into();
                        break;
                    }
                }
                match x {
                    Ctx::Basic(_) => json!(r),
                    Ctx::Custom(k) => {
                        let mut a = k.asked.lock().unwrap().clone();
                        a.sort();
                        a.dedup();
                        json!({"r": r, "asked": a})
                    }
                }
            }
        },
        // Several calls from several threads at once, each thread its own order.
        "par" => match &c.ctxs[idx(e, "h")] {
            Some(Ctx::Basic(x)) => {
                let calls: Vec<(String, usize)> = e["calls"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|k| (k["rule"].as_str().unwrap().to_string(), idx(k, "d")))
                    .collect();
                let n = calls.len();
                let docs = &c.docs;
                let calls = &calls;
                let barrier = &std::sync::Barrier::new(8);
                let all: Vec<Vec<Vec<String>>> = std::thread::scope(|s| {
                    let hs: Vec<_> = (0..8usize)
                        .map(|t| {
                            std::thread::Builder::new()
                                .stack_size(16 << 20)
                                .spawn_scoped(s, move || {
                                    barrier.wait();
                                    let mut out = vec![vec![]; n];
                                    for round in 0..6 {
                                        for i in 0..n {
                                            let j = (i + t + round) % n;
                                            let r = catch_unwind(AssertUnwindSafe(|| {
                                                pre_call(x, &calls[j].0, &docs[calls[j].1])
                                            }))
                                            .unwrap_or_else(|_| "panic".into());
                                            out[j].push(r);
                                        }
                                    }
                                    out
                                })
                                .unwrap()
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                // For each call the different results seen.
                let res: Vec<Vec<String>> = (0..n)
                    .map(|j| {
                        let mut v: Vec<String> =
                            all.iter().flat_map(|o| o[j].iter().cloned()).collect();
                        v.sort();
                        v.dedup();
                        v
                    })
                    .collect();
                json!(res)
            }
            _ => json!("noctx"),
        },
        // Has the context kept the rules it was loaded with?
        "intact" => match &c.ctxs[idx(e, "h")] {
            Some(Ctx::Basic(x)) => match flatten_from_str(&c.texts[idx(e, "t")]) {
                Ok(r) => json!(if r == x.rules { "same" } else { "differs" }),
                Err(e) => json!(kind(&e)),
            },
            _ => json!("noctx"),
        },
        x => panic!("unknown event {}", x),
    }
}

fn run(line: &str) -> String {
    let case: J = serde_json::from_str(line).expect("case");
    let mut c = Case {
        texts: case["texts"]
            .as_array()
            .unwrap()
            .iter()
            .map(|t| t.as_str().unwrap().to_string())
            .collect(),
        docs: case["docs"].as_array().unwrap().iter().map(doc).collect(),
        ctxs: vec![],
    };
    let mut out = vec![];
    for e in case["ev"].as_array().unwrap() {
        let r = catch_unwind(AssertUnwindSafe(|| event(&mut c, e)));
        out.push(r.unwrap_or_else(|_| json!("panic")));
    }
    J::Array(out).to_string()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let worker = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(|| {
            let stdin = std::io::stdin();
            let mut stdout = std::io::stdout().lock();
            for line in stdin.lock().lines() {
                let r = run(&line.unwrap());
                writeln!(stdout, "{}", r).unwrap();
                stdout.flush().unwrap();
            }
        })
        .unwrap();
    if worker.join().is_err() {
        std::process::exit(3);
    }
}
