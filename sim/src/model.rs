//! Executable reference model: what a syntax tree means as a token sequence, and which single
//! edits each mutation algorithm is documented to make.  Written from the documentation, not
//! from the tool's code; it shares nothing with the tool.
use crate::lex;
use crate::plan::Lang;
use serde_json::Value;
use std::collections::HashMap;

pub const ALGS_SOL: [&str; 17] = [
    "ArithmeticBinaryOp", "LogicalBinaryOp", "BitwiseBinaryOp", "BitshiftBinaryOp", "ComparisonBinaryOp", "Assignment", "DeleteStatement", "FunctionCall", "IfStatement", "Integer", "SwapFunctionArguments", "SwapOperatorArguments", "SwapLines", "UnaryOp", "Require", "UncheckedBlock", "ElimDelegateCall",
];
pub const ALGS_VY: [&str; 14] = [
    "ArithmeticBinaryOp", "LogicalBinaryOp", "BitwiseBinaryOp", "BitshiftBinaryOp", "ComparisonBinaryOp", "Assignment", "DeleteStatement", "FunctionCall", "IfStatement", "Integer", "SwapFunctionArguments", "SwapOperatorArguments", "SwapLines", "UnaryOp",
];

/// 2**256 - 1
pub const BIG: &str = "115792089237316195423570985008687907853269984665640564039457584007913129639935";
/// wildcard tokens start with this character
pub const WILD: char = '\u{1}';
/// an integer in a range, possibly negative
pub fn wild_int(lo: Option<i128>, hi: Option<i128>) -> String {
    format!("{WILD}int:{}:{}", lo.map_or(String::new(), |x| x.to_string()), hi.map_or(String::new(), |x| x.to_string()))
}
pub fn wild_decimal() -> String {
    format!("{WILD}dec::")
}

/// one possible result of one edit
#[derive(Clone, Debug)]
pub struct Cand {
    /// tokens s..e of the original are replaced
    pub s: usize,
    pub e: usize,
    pub repl: Vec<String>,
    /// identity of the mutated node, for counting
    pub site: usize,
    /// the algorithm is bound to offer it, not only allowed to
    pub sure: bool,
}

pub struct Model {
    pub lang: Lang,
    pub toks: Vec<String>,
    /// spans of function definitions, with their names
    pub funcs: Vec<(String, usize, usize)>,
    spans: HashMap<usize, (usize, usize)>,
    wraps: HashMap<usize, (usize, usize)>,
    pub ast: Box<Value>,
    cache: std::cell::RefCell<HashMap<String, std::rc::Rc<Vec<Cand>>>>,
}

pub struct Out {
    pub toks: Vec<String>,
    pub spans: HashMap<usize, (usize, usize)>,
    /// the same with the parentheses the node's place calls for
    pub wraps: HashMap<usize, (usize, usize)>,
    pub funcs: Vec<(String, usize, usize)>,
}
impl Out {
    fn new() -> Out {
        Out { toks: vec![], spans: HashMap::new(), wraps: HashMap::new(), funcs: vec![] }
    }
    pub fn t(&mut self, s: &str) {
        self.toks.push(s.to_string());
    }
    /// text of several tokens
    pub fn x(&mut self, lang: Lang, s: &str) {
        let l = lex::lex(lang, s).unwrap_or_else(|e| panic!("model text {s:?}: {e}"));
        for t in l.toks {
            if t != lex::NL && t != lex::IND && t != lex::DED {
                self.toks.push(t);
            }
        }
    }
}
fn key(v: &Value) -> usize {
    v as *const Value as usize
}
pub fn st<'a>(n: &'a Value, k: &str) -> &'a str {
    n.get(k).and_then(|x| x.as_str()).unwrap_or("")
}
fn bo(n: &Value, k: &str) -> bool {
    n.get(k).and_then(|x| x.as_bool()).unwrap_or(false)
}
pub fn arr<'a>(n: &'a Value, k: &str) -> &'a [Value] {
    n.get(k).and_then(|x| x.as_array()).map_or(&[], |v| v.as_slice())
}
fn has(n: &Value, k: &str) -> bool {
    n.get(k).map_or(false, |x| !x.is_null())
}

impl Model {
    pub fn new(lang: Lang, ast: &Value) -> Model {
        let ast = Box::new(ast.clone());
        let mut o = Out::new();
        match lang {
            Lang::Sol => sol(&mut o, &ast, false),
            Lang::Vy => {
                doc_token(&mut o, &ast["ast"]);
                vy_body(&mut o, arr(&ast["ast"], "body"));
                let n = o.toks.len();
                o.spans.insert(key(&ast["ast"]), (0, n));
            }
        }
        Model { lang, toks: o.toks, funcs: o.funcs, spans: o.spans, wraps: o.wraps, ast, cache: Default::default() }
    }
    /// the source text handed to the tool
    pub fn source(&self) -> String {
        render(self.lang, &self.toks)
    }
    fn emit(&self, n: &Value, forloop: bool) -> Vec<String> {
        let mut o = Out::new();
        match self.lang {
            Lang::Sol => sol(&mut o, n, forloop),
            Lang::Vy => vy(&mut o, n),
        }
        o.toks
    }
    pub fn cands(&self, alg: &str) -> std::rc::Rc<Vec<Cand>> {
        if let Some(c) = self.cache.borrow().get(alg) {
            return c.clone();
        }
        let mut v = vec![];
        let root: &Value = match self.lang {
            Lang::Sol => &self.ast,
            Lang::Vy => &self.ast["ast"],
        };
        self.walk(root, alg, &mut vec![], &mut v);
        // results equal to the original are not edits
        v.retain(|c| c.repl[..] != self.toks[c.s..c.e]);
        let v = std::rc::Rc::new(v);
        self.cache.borrow_mut().insert(alg.to_string(), v.clone());
        v
    }
    /// visit all nodes; `bodies` are the enclosing single-statement bodies (outermost first)
    fn walk<'a>(&'a self, n: &'a Value, alg: &str, bodies: &mut Vec<&'a Value>, out: &mut Vec<Cand>) {
        match n {
            Value::Array(a) => {
                for x in a {
                    self.walk(x, alg, bodies, out);
                }
            }
            Value::Object(m) => {
                if self.spans.contains_key(&key(n)) {
                    let k0 = out.len();
                    match self.lang {
                        Lang::Sol => self.sol_edits(n, alg, out),
                        Lang::Vy => self.vy_edits(n, alg, out),
                    }
                    // a comment in front of a lone statement makes the tool add braces around it
                    let k1 = out.len();
                    for b in bodies.iter() {
                        let (bs, be) = self.spans[&key(b)];
                        for i in k0..k1 {
                            let c = &out[i];
                            let mut r = vec!["{".to_string()];
                            r.extend_from_slice(&self.toks[bs..c.s]);
                            r.extend_from_slice(&c.repl);
                            r.extend_from_slice(&self.toks[c.e..be]);
                            r.push("}".into());
                            let w = Cand { s: bs, e: be, repl: r, site: c.site, sure: c.sure };
                            out.push(w);
                        }
                    }
                }
                for (k, x) in m {
                    let lone = self.lang == Lang::Sol && matches!(k.as_str(), "trueBody" | "falseBody" | "body") && x.is_object() && !matches!(st(x, "nodeType"), "Block" | "UncheckedBlock" | "YulBlock") && matches!(st(n, "nodeType"), "IfStatement" | "ForStatement" | "WhileStatement" | "DoWhileStatement");
                    if lone {
                        bodies.push(x);
                    }
                    self.walk(x, alg, bodies, out);
                    if lone {
                        bodies.pop();
                    }
                }
            }
            _ => {}
        }
    }
    fn span(&self, n: &Value) -> (usize, usize) {
        self.spans[&key(n)]
    }
    fn wrap(&self, n: &Value) -> (usize, usize) {
        self.wraps.get(&key(n)).copied().unwrap_or_else(|| self.span(n))
    }
    fn put(&self, out: &mut Vec<Cand>, n: &Value, repl: Vec<String>) {
        let (s, e) = self.span(n);
        out.push(Cand { s, e, repl, site: key(n), sure: true });
    }
    fn put_at(&self, out: &mut Vec<Cand>, site: &Value, at: &Value, repl: Vec<String>) {
        let (s, e) = self.span(at);
        out.push(Cand { s, e, repl, site: key(site), sure: true });
    }
    fn slice(&self, n: &Value) -> &[String] {
        let (s, e) = self.span(n);
        &self.toks[s..e]
    }
    /// exchange the token ranges of two nodes
    fn swap(&self, out: &mut Vec<Cand>, site: &Value, a: &Value, b: &Value) {
        let (mut x, mut y) = (self.span(a), self.span(b));
        if x.0 > y.0 {
            std::mem::swap(&mut x, &mut y);
        }
        let mut r = self.toks[y.0..y.1].to_vec();
        r.extend_from_slice(&self.toks[x.1..y.0]);
        r.extend_from_slice(&self.toks[x.0..x.1]);
        out.push(Cand { s: x.0, e: y.1, repl: r, site: key(site), sure: true });
    }
    fn sol_edits(&self, n: &Value, alg: &str, out: &mut Vec<Cand>) {
        let ty = st(n, "nodeType");
        match alg {
            "ArithmeticBinaryOp" | "LogicalBinaryOp" | "BitwiseBinaryOp" | "BitshiftBinaryOp" | "ComparisonBinaryOp" if ty == "BinaryOperation" => {
                let ops = ops_of(alg);
                let op = st(n, "operator");
                if ops.contains(&op) {
                    for o in ops {
                        if *o != op {
                            let mut r = self.slice(&n["leftExpression"]).to_vec();
                            r.push(o.to_string());
                            r.extend_from_slice(self.slice(&n["rightExpression"]));
                            self.put(out, n, r);
                        }
                    }
                }
            }
            "UnaryOp" if ty == "UnaryOperation" => {
                let pre = bo(n, "prefix");
                let ops: &[&str] = if pre { &["++", "--", "~"] } else { &["++", "--"] };
                let op = st(n, "operator");
                if ops.contains(&op) {
                    for o in ops {
                        if *o != op {
                            let mut r = self.slice(&n["subExpression"]).to_vec();
                            if pre {
                                r.insert(0, o.to_string())
                            } else {
                                r.push(o.to_string())
                            }
                            self.put(out, n, r);
                        }
                    }
                }
            }
            "Assignment" if ty == "Assignment" => {
                let t = n["typeDescriptions"]["typeString"].as_str().unwrap_or("");
                let rhs = &n["rightHandSide"];
                if t == "bool" {
                    for b in ["true", "false"] {
                        self.put_at(out, n, rhs, vec![b.into()]);
                    }
                } else if let Some(b) = t.strip_prefix("uint").and_then(|x| x.parse::<u32>().ok()) {
                    let hi = if b < 127 { Some((1i128 << b) - 1) } else { None };
                    self.put_at(out, n, rhs, vec![wild_int(Some(0), hi)]);
                } else if let Some(b) = t.strip_prefix("int").and_then(|x| x.parse::<u32>().ok()) {
                    let (lo, hi) = if b < 127 { (Some(-(1i128 << (b - 1))), Some((1i128 << (b - 1)) - 1)) } else { (None, None) };
                    self.put_at(out, n, rhs, vec![wild_int(lo, hi)]);
                }
            }
            "DeleteStatement" if ty == "Block" || ty == "UncheckedBlock" => {
                for s in arr(n, "statements") {
                    if !matches!(st(s, "nodeType"), "Return" | "VariableDeclarationStatement") {
                        self.put_at(out, n, s, vec![]);
                        out.last_mut().unwrap().sure = ty == "Block" && st(s, "nodeType") == "ExpressionStatement" && arr(n, "statements").len() > 1;
                    }
                }
            }
            "FunctionCall" if ty == "FunctionCall" => {
                for a in arr(n, "arguments") {
                    self.put(out, n, self.slice(a).to_vec());
                    out.last_mut().unwrap().sure = st(a, "nodeType") != "Literal";
                }
            }
            "SwapFunctionArguments" if ty == "FunctionCall" => {
                let a = arr(n, "arguments");
                for i in 0..a.len() {
                    for j in i + 1..a.len() {
                        self.swap(out, n, &a[i], &a[j]);
                        let t = |x: &Value| x["typeDescriptions"]["typeString"].as_str().map(str::to_string);
                        out.last_mut().unwrap().sure = t(&a[i]).is_some() && t(&a[i]) == t(&a[j]);
                    }
                }
            }
            "IfStatement" if ty == "IfStatement" => {
                let c = &n["condition"];
                self.put_at(out, n, c, vec!["true".into()]);
                self.put_at(out, n, c, vec!["false".into()]);
                let mut r: Vec<String> = vec!["!".into(), "(".into()];
                r.extend_from_slice(self.slice(c));
                r.push(")".into());
                self.put_at(out, n, c, r);
            }
            "Integer" if ty == "Literal" && st(n, "kind") == "number" && !st(n, "value").contains('.') => {
                let mut rest: Vec<String> = vec![];
                if has(n, "subdenomination") {
                    rest.push(st(n, "subdenomination").into());
                }
                let mut go = |w: Vec<String>| {
                    let mut r = w;
                    r.extend_from_slice(&rest);
                    self.put(out, n, r)
                };
                if let Some(v) = int_value(st(n, "value")) {
                    for d in [v + 1, v - 1] {
                        if d < 0 {
                            go(vec!["-".into(), (-d).to_string()])
                        } else {
                            go(vec![d.to_string()])
                        }
                    }
                }
                go(vec![wild_int(Some(0), None)]);
            }
            "SwapOperatorArguments" if ty == "BinaryOperation" && NONCOMM.contains(&st(n, "operator")) => self.swap(out, n, &n["leftExpression"], &n["rightExpression"]),
            "SwapLines" if ty == "Block" || ty == "UncheckedBlock" => {
                let a = arr(n, "statements");
                for i in 0..a.len() {
                    for j in i + 1..a.len() {
                        self.swap(out, n, &a[i], &a[j]);
                        out.last_mut().unwrap().sure = ty == "Block" && [&a[i], &a[j]].iter().all(|x| st(x, "nodeType") == "ExpressionStatement");
                    }
                }
            }
            "Require" if ty == "FunctionCall" && st(&n["expression"], "name") == "require" => {
                if let Some(a) = arr(n, "arguments").first() {
                    let mut r: Vec<String> = vec!["!".into(), "(".into()];
                    r.extend_from_slice(self.slice(a));
                    r.push(")".into());
                    self.put_at(out, n, a, r);
                }
            }
            "UncheckedBlock" if ty == "Block" => {
                for s in arr(n, "statements") {
                    let mut r: Vec<String> = vec!["unchecked".into(), "{".into()];
                    r.extend_from_slice(self.slice(s));
                    r.push("}".into());
                    self.put_at(out, n, s, r);
                    out.last_mut().unwrap().sure = st(s, "nodeType") == "ExpressionStatement";
                }
            }
            "ElimDelegateCall" if ty == "MemberAccess" && st(n, "memberName") == "delegatecall" => {
                let mut r = self.slice(n).to_vec();
                *r.last_mut().unwrap() = "call".into();
                self.put(out, n, r);
            }
            _ => {}
        }
    }
    fn vy_edits(&self, n: &Value, alg: &str, out: &mut Vec<Cand>) {
        let ty = st(n, "ast_type");
        match alg {
            "ArithmeticBinaryOp" | "BitwiseBinaryOp" | "BitshiftBinaryOp" | "ComparisonBinaryOp" | "LogicalBinaryOp" if matches!(ty, "BinOp" | "BoolOp" | "Compare") => {
                let ops = ops_of(alg);
                let op = n["op"]["ast_type"].as_str().unwrap_or("");
                let cur = VYOPS.iter().find(|x| x.0 == op).map_or("", |x| x.1);
                if ops.contains(&cur) {
                    for o in ops {
                        if *o != cur {
                            let name = VYOPS.iter().find(|x| x.1 == *o).unwrap().0;
                            let mut m = n.clone();
                            m["op"]["ast_type"] = name.into();
                            self.put(out, n, self.emit(&m, false));
                        }
                    }
                }
            }
            "UnaryOp" if ty == "UnaryOp" => {
                // the operator is removed
                let r = self.emit(&n["operand"], false);
                let (s, e) = self.wrap(n);
                let mut p = vec!["(".to_string()];
                p.extend(r.clone());
                p.push(")".into());
                for repl in [r, p] {
                    out.push(Cand { s, e, repl, site: key(n), sure: true });
                }
            }
            "Assignment" if ty == "Assign" => {
                let v = &n["value"];
                for w in ["True", "False"] {
                    self.put_at(out, n, v, vec![w.into()]);
                }
                self.put_at(out, n, v, vec![wild_int(None, None)]);
                self.put_at(out, n, v, vec![wild_decimal()]);
            }
            "DeleteStatement" if matches!(ty, "FunctionDef" | "For" | "If" | "Module") => {
                for k in ["body", "orelse"] {
                    let a = arr(n, k);
                    for s in a {
                        if a.len() > 1 {
                            self.put_at(out, n, s, vec![]);
                            out.last_mut().unwrap().sure = k == "body" && ty != "Module" && matches!(st(s, "ast_type"), "Assign" | "AugAssign" | "Expr" | "Log");
                        } else {
                            // a block must not become empty: a statement without effect, or a
                            // return of an arbitrary value, stands in
                            self.put_at(out, n, s, vec!["pass".into(), lex::NL.into()]);
                            out.last_mut().unwrap().sure = false;
                            if ty == "FunctionDef" {
                                for r in vy_fillers(&n["returns"]) {
                                    self.put_at(out, n, s, r);
                                    out.last_mut().unwrap().sure = false;
                                }
                            }
                        }
                    }
                }
            }
            "FunctionCall" if ty == "Call" => {
                for a in arr(n, "args") {
                    let r = self.emit(a, false);
                    self.put(out, n, r.clone());
                    let mut p = vec!["(".to_string()];
                    p.extend(r);
                    p.push(")".into());
                    self.put(out, n, p);
                    if matches!(st(a, "ast_type"), "Int" | "Str" | "Hex" | "Bytes" | "Decimal" | "NameConstant") {
                        let k = out.len();
                        for c in &mut out[k - 2..] {
                            c.sure = false;
                        }
                    }
                }
            }
            "SwapFunctionArguments" if ty == "Call" => {
                let a = arr(n, "args");
                for i in 0..a.len() {
                    for j in i + 1..a.len() {
                        self.swap(out, n, &a[i], &a[j]);
                    }
                }
            }
            "IfStatement" if ty == "If" => {
                let c = &n["test"];
                self.put_at(out, n, c, vec!["True".into()]);
                self.put_at(out, n, c, vec!["False".into()]);
                let r = self.emit(c, false);
                let mut a = vec!["not".to_string()];
                a.extend(r.clone());
                self.put_at(out, n, c, a);
                let mut b: Vec<String> = vec!["not".into(), "(".into()];
                b.extend(r);
                b.push(")".into());
                self.put_at(out, n, c, b);
            }
            "Integer" if ty == "Int" => {
                let (s, e) = self.wrap(n);
                let mut rs = vec![vec![wild_int(None, None)]];
                if let Ok(v) = n["value"].to_string().parse::<i128>() {
                    for d in [v + 1, v - 1] {
                        rs.push(if d < 0 { vec!["-".into(), (-d).to_string()] } else { vec![d.to_string()] });
                    }
                }
                for r in rs {
                    let mut p = vec!["(".to_string()];
                    p.extend(r.clone());
                    p.push(")".into());
                    // the tool's numbers have 64 bits
                    let fits = |t: &[String]| t.concat().parse::<i128>().map_or(true, |x| x >= i64::MIN as i128 && x <= u64::MAX as i128);
                    for repl in [r, p] {
                        let sure = fits(repl.iter().filter(|t| !matches!(t.as_str(), "(" | ")")).cloned().collect::<Vec<_>>().as_slice());
                        out.push(Cand { s, e, repl, site: key(n), sure });
                    }
                }
            }
            "SwapOperatorArguments" if matches!(ty, "BinOp" | "Compare" | "BoolOp") => {
                let op = n["op"]["ast_type"].as_str().unwrap_or("");
                let cur = VYOPS.iter().find(|x| x.0 == op).map_or("", |x| x.1);
                if NONCOMM.contains(&cur) {
                    let mut m = n.clone();
                    let (l, r) = (n["left"].clone(), n["right"].clone());
                    m["left"] = r;
                    m["right"] = l;
                    self.put(out, n, self.emit(&m, false));
                }
            }
            "SwapLines" if matches!(ty, "FunctionDef" | "For" | "If") => {
                for k in ["body", "orelse"] {
                    let a = arr(n, k);
                    for i in 0..a.len() {
                        for j in i + 1..a.len() {
                            self.swap(out, n, &a[i], &a[j]);
                            out.last_mut().unwrap().sure = k == "body" && [&a[i], &a[j]].iter().all(|x| matches!(st(x, "ast_type"), "Assign" | "AugAssign" | "Expr" | "Log"));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    /// Does this token sequence arise from the original by one edit of that algorithm?
    /// Returns the number of the site.
    pub fn explains(&self, alg: &str, m: &[String]) -> Option<usize> {
        let o = &self.toks;
        let cp = o.iter().zip(m).take_while(|(a, b)| a == b).count();
        let cs = o.iter().rev().zip(m.iter().rev()).take_while(|(a, b)| a == b).count();
        for c in self.cands(alg).iter() {
            if c.s > cp || o.len() - c.e > cs || m.len() + c.e < o.len() + c.s {
                continue;
            }
            let mid = &m[c.s.min(m.len())..(m.len() - (o.len() - c.e)).max(c.s.min(m.len()))];
            if matches(&c.repl, mid) {
                return Some(c.site);
            }
        }
        None
    }
    /// all edits that give this token sequence
    pub fn explanations(&self, alg: &str, m: &[String]) -> Vec<Cand> {
        let o = &self.toks;
        self.cands(alg)
            .iter()
            .filter(|c| m.len() + c.e >= o.len() + c.s && m.len() >= c.s + (o.len() - c.e) && m[..c.s] == o[..c.s] && m[m.len() - (o.len() - c.e)..] == o[c.e..] && matches(&c.repl, &m[c.s..m.len() - (o.len() - c.e)]))
            .cloned()
            .collect()
    }
    /// like `explains`, with an edit inside one of these token ranges
    pub fn explains_within(&self, alg: &str, m: &[String], spans: &[(usize, usize)]) -> bool {
        let o = &self.toks;
        self.cands(alg).iter().filter(|c| spans.iter().any(|(a, b)| *a <= c.s && c.e <= *b)).any(|c| {
            m.len() + c.e >= o.len() + c.s && m.len() >= c.s + (o.len() - c.e) && m[..c.s] == o[..c.s] && m[m.len() - (o.len() - c.e)..] == o[c.e..] && matches(&c.repl, &m[c.s..m.len() - (o.len() - c.e)])
        })
    }
    /// smallest range of original tokens that a difference touches
    pub fn changed(&self, m: &[String]) -> Option<(usize, usize)> {
        let o = &self.toks;
        if o[..] == *m {
            return None;
        }
        let cp = o.iter().zip(m).take_while(|(a, b)| a == b).count();
        let cs = o[cp..].iter().rev().zip(m[cp.min(m.len())..].iter().rev()).take_while(|(a, b)| a == b).count();
        Some((cp, o.len() - cs))
    }
}
fn matches(pat: &[String], m: &[String]) -> bool {
    let (mut i, mut j) = (0, 0);
    while i < pat.len() {
        let p = &pat[i];
        if let Some(w) = p.strip_prefix(WILD) {
            let mut it = w.split(':');
            let kind = it.next().unwrap();
            let lo: Option<i128> = it.next().and_then(|x| x.parse().ok());
            let hi: Option<i128> = it.next().and_then(|x| x.parse().ok());
            let mut neg = false;
            if j < m.len() && m[j] == "-" {
                neg = true;
                j += 1;
            }
            if j >= m.len() {
                return false;
            }
            let t = &m[j];
            if kind == "dec" {
                if !(t.chars().all(|c| c.is_ascii_digit() || c == '.') && t.chars().next().map_or(false, |c| c.is_ascii_digit())) {
                    return false;
                }
            } else {
                if t.is_empty() || !t.chars().all(|c| c.is_ascii_digit()) || t.len() > 78 {
                    return false;
                }
                match t.parse::<i128>() {
                    Ok(v) => {
                        let v = if neg { -v } else { v };
                        if lo.map_or(false, |l| v < l) || hi.map_or(false, |h| v > h) {
                            return false;
                        }
                    }
                    Err(_) => {
                        if (neg && lo.is_some()) || (!neg && hi.is_some()) {
                            return false;
                        }
                    }
                }
            }
            i += 1;
            j += 1;
        } else {
            if j >= m.len() || *p != m[j] {
                return false;
            }
            i += 1;
            j += 1;
        }
    }
    j == m.len()
}
pub fn int_value(s: &str) -> Option<i128> {
    let s = s.replace('_', "");
    if let Some(h) = s.strip_prefix("0x") {
        return i128::from_str_radix(h, 16).ok();
    }
    if let Some((a, b)) = s.split_once(|c| c == 'e' || c == 'E') {
        let (a, b): (i128, u32) = (a.parse().ok()?, b.parse().ok()?);
        return a.checked_mul(10i128.checked_pow(b)?);
    }
    s.parse().ok()
}
pub const NONCOMM: [&str; 10] = ["-", "/", "%", "**", ">", "<", "<=", ">=", "<<", ">>"];
pub fn ops_of(alg: &str) -> &'static [&'static str] {
    match alg {
        "ArithmeticBinaryOp" => &["+", "-", "*", "/", "%", "**"],
        "LogicalBinaryOp" => &["&&", "||"],
        "BitwiseBinaryOp" => &["&", "|", "^"],
        "BitshiftBinaryOp" => &["<<", ">>"],
        "ComparisonBinaryOp" => &["==", "!=", ">", "<", ">=", "<="],
        _ => &[],
    }
}
pub const VYOPS: [(&str, &str); 19] = [
    ("Add", "+"), ("Sub", "-"), ("Mult", "*"), ("Div", "/"), ("Mod", "%"), ("Pow", "**"), ("LShift", "<<"), ("RShift", ">>"), ("And", "&&"), ("Or", "||"), ("BitAnd", "&"), ("BitOr", "|"), ("BitXor", "^"), ("Eq", "=="), ("NotEq", "!="), ("Gt", ">"), ("GtE", ">="), ("Lt", "<"), ("LtE", "<="),
];

pub fn render(lang: Lang, toks: &[String]) -> String {
    let mut s = String::new();
    match lang {
        Lang::Sol => {
            for t in toks {
                if t.starts_with('"') && !t.is_ascii() {
                    for c in t.chars() {
                        if c.is_ascii() {
                            s.push(c);
                        } else {
                            c.to_string().bytes().for_each(|b| s.push_str(&format!("\\x{b:02x}")));
                        }
                    }
                } else {
                    s.push_str(t);
                }
                s.push(if matches!(t.as_str(), ";" | "{" | "}") { '\n' } else { ' ' });
            }
            s.push('\n');
        }
        Lang::Vy => {
            let mut ind = 0;
            let mut bol = true;
            for t in toks {
                match t.as_str() {
                    lex::IND => ind += 1,
                    lex::DED => ind -= 1,
                    lex::NL => {
                        s.push('\n');
                        bol = true;
                    }
                    _ => {
                        if bol {
                            s.push_str(&"    ".repeat(ind));
                            bol = false;
                        } else {
                            s.push(' ');
                        }
                        if t.starts_with("\"\"\"") {
                            s.push_str(&lex::escape_doc(t));
                        } else {
                            s.push_str(t);
                        }
                    }
                }
            }
        }
    }
    s
}

// ------------------------------------------------------------------------------- Solidity
fn list(o: &mut Out, a: &[Value]) {
    for (i, x) in a.iter().enumerate() {
        if i > 0 {
            o.t(",");
        }
        sol(o, x, false);
    }
}
fn params(o: &mut Out, n: &Value) {
    o.t("(");
    list(o, arr(n, "parameters"));
    o.t(")");
}
fn block(o: &mut Out, a: &[Value]) {
    o.t("{");
    for s in a {
        sol(o, s, false);
    }
    o.t("}");
}
use crate::lex::quoted;
/// a string literal; one that is not text has no value, only its bytes
fn text(o: &mut Out, n: &Value) {
    if has(n, "value") {
        o.t(&quoted(st(n, "value")));
    } else {
        let h = st(n, "hexValue");
        let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        o.t(&lex::quoted_bytes(&b));
    }
}
fn n_is_default(c: &Value) -> bool {
    c["value"] == "default"
}
pub fn sol(o: &mut Out, n: &Value, forloop: bool) {
    if n.is_null() {
        return;
    }
    let s0 = o.toks.len();
    let ty = st(n, "nodeType");
    match ty {
        "SourceUnit" => {
            for x in arr(n, "nodes") {
                sol(o, x, false);
                if st(x, "nodeType") == "VariableDeclaration" {
                    o.t(";");
                }
            }
        }
        "PragmaDirective" => {
            o.t("pragma");
            let l = arr(n, "literals");
            let mut text = String::new();
            let mut prev = "";
            for x in l {
                let s = x.as_str().unwrap();
                let dig = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_digit() || c == '.');
                if !(["<", "<=", ">=", ">", "^"].contains(&prev) || (dig(prev) && dig(s))) {
                    text.push(' ');
                }
                text.push_str(s);
                prev = s;
            }
            o.x(Lang::Sol, &text);
            o.t(";");
        }
        "ImportDirective" => {
            o.t("import");
            let al = arr(n, "symbolAliases");
            if !al.is_empty() {
                o.t("{");
                for (i, a) in al.iter().enumerate() {
                    if i > 0 {
                        o.t(",");
                    }
                    sol(o, &a["foreign"], false);
                    if has(a, "local") {
                        o.t("as");
                        o.t(st(a, "local"));
                    }
                }
                o.t("}");
                o.t("from");
            }
            o.t(&quoted(st(n, "file")));
            if !st(n, "unitAlias").is_empty() {
                o.t("as");
                o.t(st(n, "unitAlias"));
            }
            o.t(";");
        }
        "ContractDefinition" => {
            if bo(n, "abstract") {
                o.t("abstract");
            }
            o.t(st(n, "contractKind"));
            o.t(st(n, "name"));
            if !arr(n, "baseContracts").is_empty() {
                o.t("is");
                list(o, arr(n, "baseContracts"));
            }
            o.t("{");
            for x in arr(n, "nodes") {
                sol(o, x, false);
                if st(x, "nodeType") == "VariableDeclaration" {
                    o.t(";");
                }
            }
            o.t("}");
        }
        "InheritanceSpecifier" => {
            sol(o, &n["baseName"], false);
            if n.get("arguments").map_or(false, |a| a.is_array()) {
                o.t("(");
                list(o, arr(n, "arguments"));
                o.t(")");
            }
        }
        "StructDefinition" => {
            o.t("struct");
            o.t(st(n, "name"));
            o.t("{");
            for m in arr(n, "members") {
                sol(o, m, false);
                o.t(";");
            }
            o.t("}");
        }
        "EnumDefinition" => {
            o.t("enum");
            o.t(st(n, "name"));
            o.t("{");
            list(o, arr(n, "members"));
            o.t("}");
        }
        "EnumValue" | "Identifier" | "IdentifierPath" => o.x(Lang::Sol, st(n, "name")),
        "EventDefinition" | "ErrorDefinition" => {
            o.t(if ty == "EventDefinition" { "event" } else { "error" });
            o.t(st(n, "name"));
            params(o, &n["parameters"]);
            if bo(n, "anonymous") {
                o.t("anonymous");
            }
            o.t(";");
        }
        "UserDefinedValueTypeDefinition" => {
            o.t("type");
            o.t(st(n, "name"));
            o.t("is");
            sol(o, &n["underlyingType"], false);
            o.t(";");
        }
        "UsingForDirective" => {
            o.t("using");
            if has(n, "libraryName") {
                sol(o, &n["libraryName"], false);
            } else {
                o.t("{");
                for (i, f) in arr(n, "functionList").iter().enumerate() {
                    if i > 0 {
                        o.t(",");
                    }
                    sol(o, if has(f, "definition") { &f["definition"] } else { &f["function"] }, false);
                    if has(f, "operator") {
                        o.t("as");
                        o.t(st(f, "operator"));
                    }
                }
                o.t("}");
            }
            o.t("for");
            if has(n, "typeName") {
                sol(o, &n["typeName"], false);
            } else {
                o.t("*");
            }
            if bo(n, "global") {
                o.t("global");
            }
            o.t(";");
        }
        "ModifierDefinition" => {
            o.t("modifier");
            o.t(st(n, "name"));
            params(o, &n["parameters"]);
            if bo(n, "virtual") {
                o.t("virtual");
            }
            if has(n, "overrides") {
                sol(o, &n["overrides"], false);
            }
            if has(n, "body") {
                sol(o, &n["body"], false);
            } else {
                o.t(";");
            }
        }
        "FunctionDefinition" => {
            match st(n, "kind") {
                "function" | "freeFunction" => {
                    o.t("function");
                    o.t(st(n, "name"));
                }
                k => o.t(k),
            }
            params(o, &n["parameters"]);
            // free functions have no visibility
            if st(n, "kind") != "freeFunction" {
                o.t(st(n, "visibility"));
            }
            if bo(n, "virtual") {
                o.t("virtual");
            }
            if st(n, "stateMutability") != "nonpayable" {
                o.t(st(n, "stateMutability"));
            }
            if has(n, "overrides") {
                sol(o, &n["overrides"], false);
            }
            // modifiers follow each other without commas
            for m in arr(n, "modifiers") {
                sol(o, m, false);
            }
            if !arr(&n["returnParameters"], "parameters").is_empty() {
                o.t("returns");
                params(o, &n["returnParameters"]);
            }
            if has(n, "body") {
                sol(o, &n["body"], false);
            }
            if !bo(n, "implemented") {
                o.t(";");
            }
            o.funcs.push((st(n, "name").to_string(), s0, o.toks.len()));
        }
        "OverrideSpecifier" => {
            o.t("override");
            if !arr(n, "overrides").is_empty() {
                o.t("(");
                list(o, arr(n, "overrides"));
                o.t(")");
            }
        }
        "ModifierInvocation" => {
            sol(o, &n["modifierName"], false);
            if n.get("arguments").map_or(false, |a| a.is_array()) {
                o.t("(");
                list(o, arr(n, "arguments"));
                o.t(")");
            }
        }
        "ParameterList" => params(o, n),
        "VariableDeclaration" => {
            sol(o, &n["typeName"], false);
            if !matches!(st(n, "visibility"), "" | "internal") {
                o.t(st(n, "visibility"));
            }
            if bo(n, "constant") {
                o.t("constant");
            }
            if bo(n, "indexed") {
                o.t("indexed");
            }
            if has(n, "overrides") {
                sol(o, &n["overrides"], false);
            }
            if st(n, "mutability") == "immutable" {
                o.t("immutable");
            }
            if matches!(st(n, "storageLocation"), "memory" | "storage" | "calldata" | "transient") {
                o.t(st(n, "storageLocation"));
            }
            if !st(n, "name").is_empty() {
                o.t(st(n, "name"));
            }
            if has(n, "value") {
                o.t("=");
                sol(o, &n["value"], false);
            }
        }
        "ElementaryTypeName" => {
            o.t(st(n, "name"));
            if st(n, "stateMutability") == "payable" {
                o.t("payable");
            }
        }
        "UserDefinedTypeName" => {
            let p = if has(n, "pathNode") { &n["pathNode"] } else { n };
            o.x(Lang::Sol, st(p, "name"));
        }
        "Mapping" => {
            o.t("mapping");
            o.t("(");
            sol(o, &n["keyType"], false);
            if !st(n, "keyName").is_empty() {
                o.t(st(n, "keyName"));
            }
            o.t("=>");
            sol(o, &n["valueType"], false);
            if !st(n, "valueName").is_empty() {
                o.t(st(n, "valueName"));
            }
            o.t(")");
        }
        "FunctionTypeName" => {
            o.t("function");
            params(o, &n["parameterTypes"]);
            if st(n, "visibility") == "external" {
                o.t("external");
            }
            if st(n, "stateMutability") != "nonpayable" {
                o.t(st(n, "stateMutability"));
            }
            if !arr(&n["returnParameterTypes"], "parameters").is_empty() {
                o.t("returns");
                params(o, &n["returnParameterTypes"]);
            }
        }
        "ArrayTypeName" => {
            sol(o, &n["baseType"], false);
            o.t("[");
            if has(n, "length") {
                sol(o, &n["length"], false);
            }
            o.t("]");
        }
        "Block" => block(o, arr(n, "statements")),
        "UncheckedBlock" => {
            o.t("unchecked");
            block(o, arr(n, "statements"));
        }
        "ExpressionStatement" => {
            sol(o, &n["expression"], false);
            if !forloop {
                o.t(";");
            }
        }
        "VariableDeclarationStatement" => {
            let d = arr(n, "declarations");
            if d.len() > 1 {
                o.t("(");
            }
            for (i, x) in d.iter().enumerate() {
                if i > 0 {
                    o.t(",");
                }
                sol(o, x, false);
            }
            if d.len() > 1 {
                o.t(")");
            }
            if has(n, "initialValue") {
                o.t("=");
                sol(o, &n["initialValue"], false);
            }
            o.t(";");
        }
        "IfStatement" => {
            o.t("if");
            o.t("(");
            sol(o, &n["condition"], false);
            o.t(")");
            sol(o, &n["trueBody"], false);
            if has(n, "falseBody") {
                o.t("else");
                sol(o, &n["falseBody"], false);
            }
        }
        "ForStatement" => {
            o.t("for");
            o.t("(");
            if has(n, "initializationExpression") {
                sol(o, &n["initializationExpression"], false);
            } else {
                o.t(";");
            }
            if has(n, "condition") {
                sol(o, &n["condition"], false);
            }
            o.t(";");
            if has(n, "loopExpression") {
                sol(o, &n["loopExpression"], true);
            }
            o.t(")");
            sol(o, &n["body"], false);
        }
        "WhileStatement" => {
            o.t("while");
            o.t("(");
            sol(o, &n["condition"], false);
            o.t(")");
            sol(o, &n["body"], false);
        }
        "DoWhileStatement" => {
            o.t("do");
            sol(o, &n["body"], false);
            o.t("while");
            o.t("(");
            sol(o, &n["condition"], false);
            o.t(")");
            o.t(";");
        }
        "Continue" | "Break" => {
            o.t(if ty == "Break" { "break" } else { "continue" });
            o.t(";");
        }
        "PlaceholderStatement" => {
            o.t("_");
            o.t(";");
        }
        "Return" => {
            o.t("return");
            if has(n, "expression") {
                sol(o, &n["expression"], false);
            }
            o.t(";");
        }
        "EmitStatement" => {
            o.t("emit");
            sol(o, &n["eventCall"], false);
            o.t(";");
        }
        "RevertStatement" => {
            o.t("revert");
            sol(o, &n["errorCall"], false);
            o.t(";");
        }
        "TryStatement" => {
            o.t("try");
            sol(o, &n["externalCall"], false);
            for (i, c) in arr(n, "clauses").iter().enumerate() {
                if i > 0 {
                    o.t("catch");
                } else if has(c, "parameters") {
                    o.t("returns");
                }
                sol(o, c, false);
            }
        }
        "TryCatchClause" => {
            if !st(n, "errorName").is_empty() {
                o.t(st(n, "errorName"));
            }
            if has(n, "parameters") {
                params(o, &n["parameters"]);
            }
            sol(o, &n["block"], false);
        }
        "InlineAssembly" => {
            o.t("assembly");
            let f = arr(n, "flags");
            if !f.is_empty() {
                o.t("(");
                for (i, x) in f.iter().enumerate() {
                    if i > 0 {
                        o.t(",");
                    }
                    o.t(&quoted(x.as_str().unwrap()));
                }
                o.t(")");
            }
            sol(o, &n["AST"], false);
        }
        "YulBlock" => {
            o.t("{");
            for s in arr(n, "statements") {
                sol(o, s, false);
            }
            o.t("}");
        }
        "YulVariableDeclaration" => {
            o.t("let");
            list(o, arr(n, "variables"));
            if has(n, "value") {
                o.t(":=");
                sol(o, &n["value"], false);
            }
        }
        "YulAssignment" => {
            list(o, arr(n, "variableNames"));
            o.t(":=");
            sol(o, &n["value"], false);
        }
        "YulTypedName" | "YulIdentifier" => o.x(Lang::Sol, st(n, "name")),
        "YulLiteral" if st(n, "kind") == "string" => text(o, n),
        "YulLiteral" => o.t(st(n, "value")),
        "YulIf" => {
            o.t("if");
            sol(o, &n["condition"], false);
            sol(o, &n["body"], false);
        }
        "YulSwitch" => {
            o.t("switch");
            sol(o, &n["expression"], false);
            for c in arr(n, "cases") {
                if n_is_default(c) {
                    o.t("default");
                } else {
                    o.t("case");
                    sol(o, &c["value"], false);
                }
                sol(o, &c["body"], false);
            }
        }
        "YulForLoop" => {
            o.t("for");
            for k in ["pre", "condition", "post", "body"] {
                sol(o, &n[k], false);
            }
        }
        "YulFunctionDefinition" => {
            o.t("function");
            o.t(st(n, "name"));
            o.t("(");
            list(o, arr(n, "parameters"));
            o.t(")");
            if !arr(n, "returnVariables").is_empty() {
                o.t("->");
                list(o, arr(n, "returnVariables"));
            }
            sol(o, &n["body"], false);
        }
        "YulBreak" => o.t("break"),
        "YulContinue" => o.t("continue"),
        "YulLeave" => o.t("leave"),
        "YulExpressionStatement" => sol(o, &n["expression"], false),
        "YulFunctionCall" => {
            sol(o, &n["functionName"], false);
            o.t("(");
            list(o, arr(n, "arguments"));
            o.t(")");
        }
        "BinaryOperation" | "Assignment" => {
            let (l, r) = if ty == "Assignment" { ("leftHandSide", "rightHandSide") } else { ("leftExpression", "rightExpression") };
            sol(o, &n[l], false);
            o.t(st(n, "operator"));
            sol(o, &n[r], false);
        }
        "UnaryOperation" => {
            if bo(n, "prefix") {
                o.t(st(n, "operator"));
            }
            sol(o, &n["subExpression"], false);
            if !bo(n, "prefix") {
                o.t(st(n, "operator"));
            }
        }
        "Literal" => {
            match st(n, "kind") {
                "string" => text(o, n),
                "hexString" => {
                    o.t(&format!("hex{}", quoted(st(n, "hexValue"))));
                }
                "unicodeString" => {
                    o.t(&format!("unicode{}", quoted(st(n, "value"))));
                }
                _ => {
                    // a negative number is two tokens
                    o.x(Lang::Sol, st(n, "value"));
                }
            }
            if has(n, "subdenomination") {
                o.t(st(n, "subdenomination"));
            }
        }
        "FunctionCall" => {
            sol(o, &n["expression"], false);
            o.t("(");
            let names = arr(n, "names");
            if names.is_empty() {
                list(o, arr(n, "arguments"));
            } else {
                o.t("{");
                for (i, (k, a)) in names.iter().zip(arr(n, "arguments")).enumerate() {
                    if i > 0 {
                        o.t(",");
                    }
                    o.t(k.as_str().unwrap());
                    o.t(":");
                    sol(o, a, false);
                }
                o.t("}");
            }
            o.t(")");
        }
        "FunctionCallOptions" => {
            sol(o, &n["expression"], false);
            o.t("{");
            for (i, (k, a)) in arr(n, "names").iter().zip(arr(n, "options")).enumerate() {
                if i > 0 {
                    o.t(",");
                }
                o.t(k.as_str().unwrap());
                o.t(":");
                sol(o, a, false);
            }
            o.t("}");
        }
        "MemberAccess" => {
            sol(o, &n["expression"], false);
            o.t(".");
            o.t(st(n, "memberName"));
        }
        "IndexAccess" => {
            sol(o, &n["baseExpression"], false);
            o.t("[");
            if has(n, "indexExpression") {
                sol(o, &n["indexExpression"], false);
            }
            o.t("]");
        }
        "IndexRangeAccess" => {
            sol(o, &n["baseExpression"], false);
            o.t("[");
            if has(n, "startExpression") {
                sol(o, &n["startExpression"], false);
            }
            o.t(":");
            if has(n, "endExpression") {
                sol(o, &n["endExpression"], false);
            }
            o.t("]");
        }
        "TupleExpression" => {
            let array = bo(n, "isInlineArray");
            o.t(if array { "[" } else { "(" });
            for (i, c) in arr(n, "components").iter().enumerate() {
                if i > 0 {
                    o.t(",");
                }
                sol(o, c, false);
            }
            o.t(if array { "]" } else { ")" });
        }
        "Conditional" => {
            sol(o, &n["condition"], false);
            o.t("?");
            sol(o, &n["trueExpression"], false);
            o.t(":");
            sol(o, &n["falseExpression"], false);
        }
        "NewExpression" => {
            o.t("new");
            sol(o, &n["typeName"], false);
        }
        "ElementaryTypeNameExpression" => {
            let t = &n["typeName"];
            if st(t, "stateMutability") == "payable" {
                o.t("payable");
            } else {
                o.t(st(t, "name"));
            }
        }
        x => panic!("model: Solidity node {x}"),
    }
    o.spans.insert(key(n), (s0, o.toks.len()));
}

// ---------------------------------------------------------------------------------- Vyper
fn vy_fillers(returns: &Value) -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = vec![];
    let mut add = |e: Vec<String>| {
        let mut r = vec!["return".to_string()];
        r.extend(e);
        r.push(lex::NL.into());
        v.push(r);
    };
    match st(returns, "ast_type") {
        "Name" => {
            add(vec!["True".into()]);
            add(vec!["False".into()]);
            add(vec![wild_int(None, None)]);
            add(vec!["\"Lorem ipsum dolor sit amet, consectetur adipiscing elit, sed do eiusmod tempor incididunt ut labore et dolore magna aliqua.\"".into()]);
        }
        t @ ("Tuple" | "List") => {
            let mut e = vec![];
            for i in 0..arr(returns, "elements").len() {
                if i > 0 {
                    e.push(",".to_string());
                }
                e.push("None".to_string());
            }
            if t == "List" {
                e.insert(0, "[".into());
                e.push("]".into());
            }
            add(e);
        }
        _ => {}
    }
    v
}
pub fn vy_body(o: &mut Out, body: &[Value]) {
    for s in body {
        vy_stmt(o, s, false);
    }
}
fn doc_token(o: &mut Out, n: &Value) {
    if let Some(d) = n.get("doc_string").and_then(|d| d.get("value")).and_then(|d| d.as_str()) {
        o.t(&lex::doc(d));
        o.t(lex::NL);
    }
}
fn vlist(o: &mut Out, a: &[Value]) {
    for (i, x) in a.iter().enumerate() {
        if i > 0 {
            o.t(",");
        }
        vy(o, x);
    }
}
fn vparen(o: &mut Out, n: &Value) {
    vparen_if(o, n, compound(n));
}
fn compound(n: &Value) -> bool {
    matches!(st(n, "ast_type"), "BinOp" | "Compare" | "BoolOp" | "IfExp")
}
fn vparen_if(o: &mut Out, n: &Value, p: bool) {
    let s0 = o.toks.len();
    if p {
        o.t("(");
    }
    vy(o, n);
    if p {
        o.t(")");
    }
    o.wraps.insert(key(n), (s0, o.toks.len()));
}
/// arguments: tuples are in parentheses
fn varg(o: &mut Out, n: &Value) {
    match st(n, "ast_type") {
        "Tuple" => vtype(o, n),
        "List" => {
            let s0 = o.toks.len();
            o.t("[");
            for (i, x) in arr(n, "elements").iter().enumerate() {
                if i > 0 {
                    o.t(",");
                }
                varg(o, x);
            }
            o.t("]");
            o.spans.insert(key(n), (s0, o.toks.len()));
        }
        _ => vy(o, n),
    }
}
/// a type: tuples are in parentheses
fn vtype(o: &mut Out, n: &Value) {
    if st(n, "ast_type") == "Tuple" {
        let s0 = o.toks.len();
        o.t("(");
        for (i, x) in arr(n, "elements").iter().enumerate() {
            if i > 0 {
                o.t(",");
            }
            vtype(o, x);
        }
        o.t(")");
        o.spans.insert(key(n), (s0, o.toks.len()));
    } else {
        vy(o, n);
    }
}
fn vsuite(o: &mut Out, n: &Value, k: &str, interface: bool) {
    o.t(":");
    o.t(lex::NL);
    o.t(lex::IND);
    doc_token(o, if k == "body" { n } else { &Value::Null });
    for s in arr(n, k) {
        vy_stmt(o, s, interface);
    }
    o.t(lex::DED);
}
fn vy_stmt(o: &mut Out, n: &Value, interface: bool) {
    let s0 = o.toks.len();
    match st(n, "ast_type") {
        "FunctionDef" => {
            for d in arr(n, "decorator_list") {
                o.t("@");
                vy(o, d);
                o.t(lex::NL);
            }
            o.t("def");
            o.t(st(n, "name"));
            o.t("(");
            let a = &n["args"];
            let (args, defs) = (arr(a, "args"), arr(a, "defaults"));
            for (i, x) in args.iter().enumerate() {
                if i > 0 {
                    o.t(",");
                }
                vy(o, x);
                if i + defs.len() >= args.len() {
                    o.t("=");
                    vy(o, &defs[i + defs.len() - args.len()]);
                }
            }
            o.spans.insert(key(a), (s0, o.toks.len()));
            o.t(")");
            if has(n, "returns") {
                o.t("->");
                vtype(o, &n["returns"]);
            }
            if interface {
                o.t(":");
                for b in arr(n, "body") {
                    vy(o, &b["value"]);
                    o.spans.insert(key(b), (o.toks.len() - 1, o.toks.len()));
                }
                o.t(lex::NL);
            } else {
                vsuite(o, n, "body", false);
            }
            o.funcs.push((st(n, "name").to_string(), s0, o.toks.len()));
        }
        t @ ("InterfaceDef" | "StructDef" | "EventDef" | "EnumDef") => {
            o.t(&t[..t.len() - 3].to_lowercase());
            o.t(st(n, "name"));
            vsuite(o, n, "body", t == "InterfaceDef");
        }
        "For" => {
            o.t("for");
            vy(o, &n["target"]);
            o.t("in");
            vy(o, &n["iter"]);
            vsuite(o, n, "body", false);
        }
        "If" => {
            o.t("if");
            vy(o, &n["test"]);
            vsuite(o, n, "body", false);
            if !arr(n, "orelse").is_empty() {
                o.t("else");
                vsuite(o, n, "orelse", false);
            }
        }
        _ => {
            vy(o, n);
            o.t(lex::NL);
        }
    }
    o.spans.insert(key(n), (s0, o.toks.len()));
}
pub fn vy(o: &mut Out, n: &Value) {
    let s0 = o.toks.len();
    let ty = st(n, "ast_type");
    match ty {
        "Name" => o.t(st(n, "id")),
        "VariableDecl" => {
            vy(o, &n["target"]);
            o.t(":");
            let mut k = 0;
            for (f, w) in [("is_public", "public"), ("is_constant", "constant"), ("is_immutable", "immutable")] {
                if bo(n, f) {
                    o.t(w);
                    o.t("(");
                    k += 1;
                }
            }
            vtype(o, &n["annotation"]);
            for _ in 0..k {
                o.t(")");
            }
            if has(n, "value") {
                o.t("=");
                vy(o, &n["value"]);
            }
        }
        "AnnAssign" | "ImplementsDecl" => {
            vy(o, &n["target"]);
            o.t(":");
            vy(o, &n["annotation"]);
            if has(n, "value") {
                o.t("=");
                vy(o, &n["value"]);
            }
        }
        "Subscript" => {
            vparen_if(o, &n["value"], compound(&n["value"]) || st(&n["value"], "ast_type") == "UnaryOp");
            vy(o, &n["slice"]);
        }
        "Index" => {
            o.t("[");
            vy(o, &n["value"]);
            o.t("]");
        }
        "Tuple" => vlist(o, arr(n, "elements")),
        "List" => {
            o.t("[");
            vlist(o, arr(n, "elements"));
            o.t("]");
        }
        "arg" => {
            o.t(st(n, "arg"));
            if has(n, "annotation") {
                o.t(":");
                vy(o, &n["annotation"]);
            }
        }
        "Assign" => {
            vy(o, &n["target"]);
            o.t("=");
            vy(o, &n["value"]);
        }
        "AugAssign" => {
            vy(o, &n["target"]);
            o.x(Lang::Vy, &format!("{}=", vop(n)));
            vy(o, &n["value"]);
        }
        "Attribute" => {
            vparen_if(o, &n["value"], compound(&n["value"]) || st(&n["value"], "ast_type") == "UnaryOp");
            o.t(".");
            o.t(st(n, "attr"));
        }
        "Int" => o.x(Lang::Vy, &n["value"].to_string()),
        "Decimal" | "Hex" => o.x(Lang::Vy, st(n, "value")),
        "IfExp" => {
            vparen(o, &n["body"]);
            o.t("if");
            vparen(o, &n["test"]);
            o.t("else");
            vparen(o, &n["orelse"]);
        }
        "BinOp" | "Compare" => {
            // the power binds tighter than a sign, all operators bind tighter than `not`
            let (l, r) = (&n["left"], &n["right"]);
            let not = |x: &Value| st(x, "ast_type") == "UnaryOp" && x["op"]["ast_type"] == "Not";
            let signed = |x: &Value| st(x, "ast_type") == "UnaryOp" || (st(x, "ast_type") == "Int" && x["value"].to_string().starts_with('-'));
            vparen_if(o, l, compound(l) || not(l) || (n["op"]["ast_type"] == "Pow" && signed(l)));
            match n["op"]["ast_type"].as_str().unwrap() {
                "In" => o.t("in"),
                "NotIn" => {
                    o.t("not");
                    o.t("in");
                }
                _ => o.t(vop(n)),
            }
            vparen_if(o, r, compound(r) || not(r));
        }
        "BoolOp" => {
            for (i, x) in arr(n, "values").iter().enumerate() {
                if i > 0 {
                    o.t(if vop(n) == "&&" { "and" } else { "or" });
                }
                vparen(o, x);
            }
        }
        "UnaryOp" => {
            o.t(match n["op"]["ast_type"].as_str().unwrap() {
                "Not" => "not",
                "Invert" => "~",
                "USub" => "-",
                x => panic!("model: operator {x}"),
            });
            vparen(o, &n["operand"]);
        }
        "Assert" => {
            o.t("assert");
            vy(o, &n["test"]);
            if has(n, "msg") {
                o.t(",");
                vy(o, &n["msg"]);
            }
        }
        "Str" => o.t(&quoted(st(n, "value"))),
        "Expr" => vy(o, &n["value"]),
        "Call" => {
            vy(o, &n["func"]);
            o.t("(");
            for (i, a) in arr(n, "args").iter().chain(arr(n, "keywords")).enumerate() {
                if i > 0 {
                    o.t(",");
                }
                varg(o, a);
            }
            o.t(")");
        }
        "keyword" => {
            o.t(st(n, "arg"));
            o.t("=");
            varg(o, &n["value"]);
        }
        "NameConstant" => o.t(match &n["value"] {
            Value::Bool(true) => "True",
            Value::Bool(false) => "False",
            _ => "None",
        }),
        "Break" | "Continue" | "Pass" => o.t(&ty.to_lowercase()),
        "Return" => {
            o.t("return");
            if has(n, "value") {
                vy(o, &n["value"]);
            }
        }
        "Raise" => {
            o.t("raise");
            if has(n, "exc") {
                vy(o, &n["exc"]);
            }
        }
        "Log" => {
            o.t("log");
            vy(o, &n["value"]);
        }
        "Import" => {
            o.t("import");
            o.x(Lang::Vy, st(n, "name"));
            if has(n, "alias") {
                o.t("as");
                o.t(st(n, "alias"));
            }
        }
        "ImportFrom" => {
            o.t("from");
            for _ in 0..n["level"].as_i64().unwrap_or(0) {
                o.t(".");
            }
            if has(n, "module") {
                o.x(Lang::Vy, st(n, "module"));
            }
            o.t("import");
            o.t(st(n, "name"));
            if has(n, "alias") {
                o.t("as");
                o.t(st(n, "alias"));
            }
        }
        "Bytes" => {
            let h = &st(n, "value")[2..];
            let mut t = String::from("b'");
            for i in (0..h.len()).step_by(2) {
                t += "\\x";
                t += &h[i..i + 2];
            }
            t += "'";
            o.x(Lang::Vy, &t);
        }
        "Dict" => {
            o.t("{");
            for (i, (k, v)) in arr(n, "keys").iter().zip(arr(n, "values")).enumerate() {
                if i > 0 {
                    o.t(",");
                }
                vy(o, k);
                o.t(":");
                vy(o, v);
            }
            o.t("}");
        }
        x => panic!("model: Vyper node {x}"),
    }
    o.spans.insert(key(n), (s0, o.toks.len()));
}
fn vop(n: &Value) -> &'static str {
    let op = n["op"]["ast_type"].as_str().unwrap_or("");
    VYOPS.iter().find(|x| x.0 == op).unwrap_or_else(|| panic!("model: operator {op}")).1
}
