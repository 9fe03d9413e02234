//! Seeded generators of syntax trees as solc and vyper print them.
use crate::plan::Lang;
use crate::rng::Rng;
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct Opts {
    /// rough number of function definitions
    pub funcs: usize,
    pub stmts: usize,
    pub depth: usize,
    /// long identifiers, documentation, deep nesting
    pub long: bool,
    /// constructs with unusual literals and types
    pub odd: bool,
    /// names shared between functions and other things
    pub clash: bool,
    /// few or degenerate mutation sites
    pub sparse: bool,
    /// identical statements and arguments
    pub repeat: bool,
    /// the less common parts of the languages
    pub exotic: bool,
    /// a tree printed after parsing only, without what the analysis adds
    pub bare: bool,
}
impl Opts {
    pub fn random(r: &mut Rng) -> Opts {
        Opts { funcs: 1 + r.below(4), stmts: 1 + r.below(5), depth: 1 + r.below(3), long: r.chance(25), odd: r.chance(50), clash: r.chance(30), sparse: r.chance(15), repeat: r.chance(25), exotic: r.chance(40), bare: r.chance(6) }
    }
    pub fn rich(r: &mut Rng) -> Opts {
        Opts { funcs: 3 + r.below(3), stmts: 4 + r.below(4), depth: 2 + r.below(2), long: false, odd: r.chance(40), clash: r.chance(20), sparse: false, repeat: false, exotic: r.chance(25), bare: false }
    }
    pub fn small(r: &mut Rng) -> Opts {
        Opts { funcs: 1 + r.below(2), stmts: 1 + r.below(3), depth: 1, long: false, odd: false, clash: false, sparse: false, repeat: r.chance(20), exotic: false, bare: false }
    }
}
pub fn program(lang: Lang, r: &mut Rng, o: &Opts) -> Value {
    match lang {
        Lang::Sol => {
            let mut u = Sol { r, o, id: 0, locals: vec![], fnames: vec![] }.unit();
            if o.bare {
                bare(&mut u);
            }
            u
        }
        Lang::Vy => Vy { r, o, id: 0, locals: vec![], fnames: vec![] }.contract(),
    }
}
/// function names worth asking for
pub const FNAMES: [&str; 12] = ["transfer", "mint", "total", "update", "f", "burn", "sweep", "mintTo", "transferFrom", "ff", "_burn", "Mint"];
const LONGNAME: &str = "aVeryLongIdentifierThatSomebodyThoughtWouldExplainEverythingAboutTheValueItHoldsAndThenSomeMore";

// ------------------------------------------------------------------------------- Solidity
struct Sol<'a> {
    r: &'a mut Rng,
    o: &'a Opts,
    id: i64,
    locals: Vec<(String, &'static str)>,
    fnames: Vec<String>,
}
/// what solc leaves out when it is told to stop after parsing
fn bare(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(bare),
        Value::Object(m) => {
            for k in ["isConstant", "isLValue", "isPure", "lValueRequested", "commonType", "linearizedBaseContracts", "contractDependencies", "exportedSymbols", "functionReturnParameters", "scope"] {
                m.remove(k);
            }
            if m.contains_key("typeDescriptions") {
                m.insert("typeDescriptions".into(), json!({}));
            }
            m.values_mut().for_each(bare);
        }
        _ => {}
    }
}
const STATE: [(&str, &str); 9] = [("counter", "uint256"), ("limit", "uint256"), ("small", "uint8"), ("delta", "int256"), ("tiny", "int8"), ("paused", "bool"), ("owner", "address"), ("label", "string"), ("digest", "bytes32")];

impl<'a> Sol<'a> {
    fn n(&mut self, ty: &str, v: Value) -> Value {
        self.id += 1;
        let mut m = serde_json::Map::new();
        m.insert("id".into(), self.id.into());
        m.insert("nodeType".into(), ty.into());
        m.insert("src".into(), format!("{}:{}:0", self.id * 7, 5).into());
        if let Value::Object(o) = v {
            for (k, x) in o {
                m.insert(k, x);
            }
        }
        Value::Object(m)
    }
    fn td(t: &str) -> Value {
        json!({"typeIdentifier": format!("t_{}", t.replace(' ', "_")), "typeString": t})
    }
    fn ident(&mut self, name: &str, t: &str) -> Value {
        self.n("Identifier", json!({"name": name, "overloadedDeclarations": [], "typeDescriptions": Self::td(t)}))
    }
    fn num(&mut self, t: &str) -> Value {
        let mut sub = None;
        let v = if self.o.odd && self.r.chance(40) {
            match self.r.below(6) {
                0 => "0x1f".to_string(),
                1 => "1e18".into(),
                2 => "1_000_000".into(),
                3 => "115792089237316195423570985008687907853269984665640564039457584007913129639935".into(),
                4 => {
                    sub = Some(*self.r.pick(&["ether", "days", "wei"]));
                    "3".into()
                }
                _ => "9223372036854775807".into(),
            }
        } else {
            match self.r.below(4) {
                0 => "0".into(),
                1 => "1".into(),
                _ => self.r.range(2, 250).to_string(),
            }
        };
        let _ = t;
        let mut j = json!({"kind": "number", "isConstant": false, "isLValue": false, "isPure": true, "value": v, "typeDescriptions": Self::td(&format!("int_const {v}"))});
        if let Some(s) = sub {
            j["subdenomination"] = s.into();
        }
        self.n("Literal", j)
    }
    fn boolean(&mut self) -> Value {
        let b = self.r.chance(50);
        self.n("Literal", json!({"kind": "bool", "value": if b {"true"} else {"false"}, "isPure": true, "typeDescriptions": Self::td("bool")}))
    }
    fn text(&mut self) -> Value {
        if self.o.exotic && self.r.chance(25) {
            return self.xtext();
        }
        let t = if self.o.long && self.r.chance(30) {
            format!("{} is not allowed because of {}", LONGNAME, LONGNAME)
        } else if self.o.odd && self.r.chance(20) {
            self.r.pick(&["naïve — text", "say \"no\"", "a\\b // c", "naïve \"quote\" \\"]).to_string()
        } else {
            self.r.pick(&["no", "too much", "Only the owner may call this function", ""]).to_string()
        };
        let kind = if t.is_ascii() { "string" } else { "unicodeString" };
        self.n("Literal", json!({"kind": kind, "value": t, "isPure": true, "typeDescriptions": Self::td(&format!("literal_string \"{t}\""))}))
    }
    fn var(&mut self, t: &'static str) -> Option<String> {
        let mut c: Vec<String> = STATE.iter().filter(|s| s.1 == t).map(|s| s.0.to_string()).collect();
        c.extend(self.locals.iter().filter(|l| l.1 == t).map(|l| l.0.clone()));
        if c.is_empty() {
            None
        } else {
            Some(self.r.pick(&c).clone())
        }
    }
    fn paren(&mut self, e: Value, t: &str) -> Value {
        if matches!(e["nodeType"].as_str(), Some("BinaryOperation" | "Conditional" | "Assignment" | "UnaryOperation")) {
            self.n("TupleExpression", json!({"components": [e], "isInlineArray": false, "isPure": false, "typeDescriptions": Self::td(t)}))
        } else {
            e
        }
    }
    fn bin(&mut self, op: &str, l: Value, r: Value, t: &str, ot: &str) -> Value {
        let l = self.paren(l, ot);
        let r = self.paren(r, ot);
        self.n("BinaryOperation", json!({"operator": op, "leftExpression": l, "rightExpression": r, "commonType": Self::td(ot), "isConstant": false, "isLValue": false, "isPure": false, "lValueRequested": false, "typeDescriptions": Self::td(t)}))
    }
    fn call(&mut self, f: Value, args: Vec<Value>, names: Vec<&str>, t: &str) -> Value {
        self.n("FunctionCall", json!({"expression": f, "arguments": args, "names": names, "kind": "functionCall", "tryCall": false, "isConstant": false, "isLValue": false, "isPure": false, "typeDescriptions": Self::td(t)}))
    }
    fn member(&mut self, e: Value, m: &str, t: &str) -> Value {
        self.n("MemberAccess", json!({"expression": e, "memberName": m, "isConstant": false, "isLValue": false, "isPure": false, "typeDescriptions": Self::td(t)}))
    }
    fn expr(&mut self, t: &'static str, d: usize) -> Value {
        if d == 0 || (self.o.sparse && self.r.chance(60)) {
            return self.leaf(t);
        }
        if self.o.exotic && self.r.chance(18) {
            if let Some(e) = self.xexpr(t, d) {
                return e;
            }
        }
        match t {
            "uint256" | "uint8" | "int256" | "int8" => match self.r.below(13) {
                0..=3 => {
                    let op = *self.r.pick(&["+", "-", "*", "/", "%", "**"]);
                    let (l, r) = (self.expr(t, d - 1), self.expr(t, d - 1));
                    self.bin(op, l, r, t, t)
                }
                4 => {
                    let op = *self.r.pick(&["&", "|", "^"]);
                    let (l, r) = (self.expr(t, d - 1), self.expr(t, d - 1));
                    self.bin(op, l, r, t, t)
                }
                5 => {
                    let op = *self.r.pick(&["<<", ">>"]);
                    let (l, r) = (self.expr(t, d - 1), self.expr(t, d - 1));
                    self.bin(op, l, r, t, t)
                }
                6 => {
                    let pre = self.r.chance(50);
                    let op = if pre { *self.r.pick(&["++", "--", "~", "-"]) } else { *self.r.pick(&["++", "--"]) };
                    match self.var(t) {
                        Some(v) => {
                            let s = self.ident(&v, t);
                            self.n("UnaryOperation", json!({"operator": op, "prefix": pre, "subExpression": s, "isConstant": false, "isLValue": false, "isPure": false, "typeDescriptions": Self::td(t)}))
                        }
                        None => self.leaf(t),
                    }
                }
                7 | 8 => {
                    let name = if !self.fnames.is_empty() && self.r.chance(60) { self.r.pick(&self.fnames.clone()).clone() } else { self.r.pick(&["helper", "compute"]).to_string() };
                    let k = if self.o.sparse { self.r.below(3) } else { 1 + self.r.below(3) };
                    let tys = ["uint256", "address", "bool", "int256", t];
                    let mut args = vec![];
                    for i in 0..k {
                        let at = if self.r.chance(60) { t } else { *self.r.pick(&tys) };
                        if i > 0 && self.o.repeat && self.r.chance(40) {
                            let prev: &Value = &args[i - 1];
                            let c = self.reid(&prev.clone());
                            args.push(c);
                        } else {
                            let a = self.expr(at, d - 1);
                            args.push(a);
                        }
                    }
                    let f = self.ident(&name, "function (uint256) returns (uint256)");
                    let names = if k == 2 && self.r.chance(15) { vec!["to", "amount"] } else { vec![] };
                    self.call(f, args, names, t)
                }
                9 => {
                    let b = self.ident("balances", "mapping(address => uint256)");
                    let i = self.expr("address", d - 1);
                    self.n("IndexAccess", json!({"baseExpression": b, "indexExpression": i, "isLValue": true, "typeDescriptions": Self::td(t)}))
                }
                10 => {
                    let c = self.expr("bool", d - 1);
                    let c = self.paren(c, "bool");
                    let (a, b) = (self.expr(t, d - 1), self.expr(t, d - 1));
                    let (a, b) = (self.paren(a, t), self.paren(b, t));
                    self.n("Conditional", json!({"condition": c, "trueExpression": a, "falseExpression": b, "typeDescriptions": Self::td(t)}))
                }
                11 => {
                    let m = self.ident("msg", "msg");
                    self.member(m, "value", t)
                }
                _ => {
                    let tn = self.n("ElementaryTypeName", json!({"name": t, "typeDescriptions": {}}));
                    let e = self.n("ElementaryTypeNameExpression", json!({"typeName": tn, "isPure": true, "typeDescriptions": Self::td(&format!("type({t})"))}));
                    let a = self.expr(t, d - 1);
                    let mut c = self.call(e, vec![a], vec![], t);
                    c["kind"] = "typeConversion".into();
                    c
                }
            },
            "bool" => match self.r.below(8) {
                0..=2 => {
                    let op = *self.r.pick(&["==", "!=", "<", ">", "<=", ">="]);
                    let ot = *self.r.pick(&["uint256", "int256", "uint8"]);
                    let (l, r) = (self.expr(ot, d - 1), self.expr(ot, d - 1));
                    self.bin(op, l, r, "bool", ot)
                }
                3 | 4 => {
                    let op = *self.r.pick(&["&&", "||"]);
                    let (l, r) = (self.expr("bool", d - 1), self.expr("bool", d - 1));
                    self.bin(op, l, r, "bool", "bool")
                }
                5 => {
                    let s = self.expr("bool", d - 1);
                    let s = self.paren(s, "bool");
                    self.n("UnaryOperation", json!({"operator": "!", "prefix": true, "subExpression": s, "typeDescriptions": Self::td("bool")}))
                }
                6 => {
                    let l = self.expr("address", 0);
                    let r = self.expr("address", 0);
                    let op = *self.r.pick(&["==", "!="]);
                    self.bin(op, l, r, "bool", "address")
                }
                _ => self.leaf(t),
            },
            _ => self.leaf(t),
        }
    }
    fn leaf(&mut self, t: &'static str) -> Value {
        match t {
            "uint256" | "uint8" | "int256" | "int8" => {
                if self.r.chance(50) {
                    if let Some(v) = self.var(t) {
                        return self.ident(&v, t);
                    }
                }
                self.num(t)
            }
            "bool" => {
                if self.r.chance(60) {
                    let v = self.var(t).unwrap();
                    self.ident(&v, t)
                } else {
                    self.boolean()
                }
            }
            "address" => {
                if self.r.chance(50) {
                    let m = self.ident("msg", "msg");
                    self.member(m, "sender", "address")
                } else {
                    let v = self.var(t).unwrap();
                    self.ident(&v, t)
                }
            }
            "string" => self.text(),
            _ => {
                let v = self.var(t).unwrap();
                self.ident(&v, t)
            }
        }
    }
    /// a copy with new ids
    fn reid(&mut self, v: &Value) -> Value {
        let mut c = v.clone();
        fn go(v: &mut Value, id: &mut i64) {
            match v {
                Value::Array(a) => a.iter_mut().for_each(|x| go(x, id)),
                Value::Object(m) => {
                    if m.contains_key("nodeType") {
                        *id += 1;
                        m.insert("id".into(), (*id).into());
                    }
                    m.values_mut().for_each(|x| go(x, id));
                }
                _ => {}
            }
        }
        go(&mut c, &mut self.id);
        c
    }
    fn typename(&mut self, t: &str) -> Value {
        if t == "address" && self.o.exotic {
            return self.n("ElementaryTypeName", json!({"name": t, "stateMutability": "nonpayable", "typeDescriptions": Self::td(t)}));
        }
        self.n("ElementaryTypeName", json!({"name": t, "typeDescriptions": Self::td(t)}))
    }
    fn decl(&mut self, name: &str, t: &'static str, state: bool) -> Value {
        let tn = self.typename(t);
        let loc = if t == "string" && !state { "memory" } else { "default" };
        self.n("VariableDeclaration", json!({"name": name, "typeName": tn, "constant": false, "mutability": "mutable", "stateVariable": state, "storageLocation": loc, "visibility": "internal", "typeDescriptions": Self::td(t)}))
    }
    fn estmt(&mut self, e: Value) -> Value {
        self.n("ExpressionStatement", json!({"expression": e}))
    }
    fn assignment(&mut self, d: usize) -> Value {
        let t = *self.r.pick(&["uint256", "uint256", "uint8", "int256", "int8", "bool", "bool", "address", "string"]);
        let (lhs, lt) = if t == "uint256" && self.r.chance(25) {
            let b = self.ident("balances", "mapping(address => uint256)");
            let i = self.expr("address", 0);
            (self.n("IndexAccess", json!({"baseExpression": b, "indexExpression": i, "isLValue": true, "typeDescriptions": Self::td(t)})), "uint256")
        } else {
            let v = self.var(t).unwrap();
            (self.ident(&v, t), t)
        };
        let op = if matches!(t, "uint256" | "uint8" | "int256" | "int8") { *self.r.pick(&["=", "=", "=", "+=", "-=", "*=", "|=", "<<="]) } else { "=" };
        let rhs = self.expr(t, d);
        let mut ts = lt.to_string();
        if t == "string" {
            ts = "string storage ref".into();
        }
        self.n("Assignment", json!({"operator": op, "leftHandSide": lhs, "rightHandSide": rhs, "isConstant": false, "isLValue": false, "isPure": false, "typeDescriptions": Self::td(&ts)}))
    }
    fn odd_assignment(&mut self) -> Value {
        // arrays, user types and tuples on the left
        match self.r.below(4) {
            0 => {
                let l = self.ident("list", "uint256[] storage ref");
                let r = self.ident("other", "uint256[] storage ref");
                self.n("Assignment", json!({"operator": "=", "leftHandSide": l, "rightHandSide": r, "typeDescriptions": Self::td("uint256[] storage ref")}))
            }
            1 => {
                let l = self.ident("flags", "bool[3] storage ref");
                let r = self.ident("oldFlags", "bool[3] storage ref");
                self.n("Assignment", json!({"operator": "=", "leftHandSide": l, "rightHandSide": r, "typeDescriptions": Self::td("bool[3] storage ref")}))
            }
            2 => {
                let l = self.ident("item", "struct Item storage ref");
                let r = self.ident("item2", "struct Item storage ref");
                self.n("Assignment", json!({"operator": "=", "leftHandSide": l, "rightHandSide": r, "typeDescriptions": Self::td("struct Item storage ref")}))
            }
            _ => {
                let (a, b) = (self.ident("counter", "uint256"), self.ident("paused", "bool"));
                let l = self.n("TupleExpression", json!({"components": [a, b], "isInlineArray": false, "isPure": false, "typeDescriptions": Self::td("tuple(uint256,bool)")}));
                let f = self.ident("pair", "function () returns (uint256,bool)");
                let r = self.call(f, vec![], vec![], "tuple(uint256,bool)");
                self.n("Assignment", json!({"operator": "=", "leftHandSide": l, "rightHandSide": r, "typeDescriptions": Self::td("tuple()")}))
            }
        }
    }
    fn require(&mut self, d: usize) -> Value {
        let c = self.expr("bool", d);
        let mut args = vec![c];
        if self.r.chance(60) {
            let t = self.text();
            args.push(t);
        }
        let f = self.ident("require", "function (bool) pure");
        let c = self.call(f, args, vec![], "tuple()");
        self.estmt(c)
    }
    fn stmt(&mut self, d: usize, ret: Option<&'static str>) -> Value {
        let w: [u32; 18] = if d == 0 { [8, 4, 3, 0, 0, 0, 0, 1, 2, 1, 0, 1, 0, 0, 2, 1, 1, 2] } else { [8, 5, 3, 6, 3, 2, 2, 1, 2, 1, 1, 1, 2, 2, 2, 1, 1, 2] };
        if self.o.exotic && self.r.chance(25) {
            return self.xstmt(d, ret);
        }
        match self.r.weighted(&w) {
            0 => {
                let e = self.assignment(d.max(1));
                self.estmt(e)
            }
            1 => {
                let name = format!("v{}", self.locals.len());
                let t = *self.r.pick(&["uint256", "bool", "int256"]);
                let dcl = self.decl(&name, t, false);
                let init = self.expr(t, d.max(1));
                self.locals.push((name, t));
                self.n("VariableDeclarationStatement", json!({"assignments": [self.id], "declarations": [dcl], "initialValue": init}))
            }
            2 => self.require(d.max(1)),
            3 => {
                let c = self.expr("bool", d);
                let (t, tlone) = self.body(d, ret);
                let mut j = json!({"condition": c, "trueBody": t});
                if self.r.chance(40) && !tlone {
                    j["falseBody"] = self.body(d, ret).0;
                }
                self.n("IfStatement", j)
            }
            4 => {
                let k = self.locals.len();
                let name = format!("i{k}");
                let dcl = self.decl(&name, "uint256", false);
                let z = self.num("uint256");
                let init = self.n("VariableDeclarationStatement", json!({"assignments": [self.id], "declarations": [dcl], "initialValue": z}));
                self.locals.push((name.clone(), "uint256"));
                let l = self.ident(&name, "uint256");
                let r = self.leaf("uint256");
                let c = self.bin("<", l, r, "bool", "uint256");
                let l = self.ident(&name, "uint256");
                let pre = self.r.chance(50);
                let u = self.n("UnaryOperation", json!({"operator": "++", "prefix": pre, "subExpression": l, "typeDescriptions": Self::td("uint256")}));
                let le = self.estmt(u);
                let b = self.body(d, None).0;
                self.locals.truncate(k);
                self.n("ForStatement", json!({"initializationExpression": init, "condition": c, "loopExpression": le, "body": b}))
            }
            5 => {
                let c = self.expr("bool", d);
                let b = self.body(d, None).0;
                self.n("WhileStatement", json!({"condition": c, "body": b}))
            }
            6 => {
                let c = self.expr("bool", d);
                let b = self.block(d - 1, None);
                self.n("DoWhileStatement", json!({"condition": c, "body": b}))
            }
            7 => {
                let f = self.ident("Moved", "function (address,uint256)");
                let (a, b) = (self.expr("address", 1), self.expr("uint256", d.max(1)));
                let c = self.call(f, vec![a, b], vec![], "tuple()");
                self.n("EmitStatement", json!({"eventCall": c}))
            }
            8 => {
                let v = self.var("uint256").unwrap();
                let s = self.ident(&v, "uint256");
                let pre = self.r.chance(40);
                let op = *self.r.pick(&["++", "--"]);
                let u = self.n("UnaryOperation", json!({"operator": op, "prefix": pre, "subExpression": s, "typeDescriptions": Self::td("uint256")}));
                self.estmt(u)
            }
            9 => {
                let f = self.ident("Denied", "function (address)");
                let a = self.expr("address", 1);
                let c = self.call(f, vec![a], vec![], "tuple()");
                let r = self.n("RevertStatement", json!({"errorCall": c}));
                if d > 0 {
                    let c = self.expr("bool", d);
                    let b = self.n("Block", json!({"statements": [r]}));
                    self.n("IfStatement", json!({"condition": c, "trueBody": b}))
                } else {
                    r
                }
            }
            10 => {
                let t = self.ident("target", "contract ITarget");
                let m = self.member(t, "poke", "function (uint256) external");
                let a = self.expr("uint256", 1);
                let mut call = self.call(m, vec![a], vec![], "tuple()");
                call["tryCall"] = true.into();
                let b1 = self.block(d - 1, ret);
                let c1 = self.n("TryCatchClause", json!({"errorName": "", "block": b1}));
                let b2 = self.block(d - 1, ret);
                let c2 = if self.r.chance(50) {
                    self.n("TryCatchClause", json!({"errorName": "", "block": b2}))
                } else {
                    let p = self.decl("reason", "string", false);
                    let pl = self.n("ParameterList", json!({"parameters": [p]}));
                    self.n("TryCatchClause", json!({"errorName": "Error", "parameters": pl, "block": b2}))
                };
                self.n("TryStatement", json!({"externalCall": call, "clauses": [c1, c2]}))
            }
            11 => {
                let v = self.n("YulTypedName", json!({"name": "size", "type": ""}));
                let f = self.n("YulIdentifier", json!({"name": "add"}));
                let (x, y) = (self.n("YulLiteral", json!({"kind": "number", "value": "1", "type": ""})), self.n("YulLiteral", json!({"kind": "number", "value": "0x20", "type": ""})));
                let c = self.n("YulFunctionCall", json!({"functionName": f, "arguments": [x, y]}));
                let dcl = self.n("YulVariableDeclaration", json!({"variables": [v], "value": c}));
                let b = self.n("YulBlock", json!({"statements": [dcl]}));
                self.n("InlineAssembly", json!({"AST": b, "evmVersion": "london", "externalReferences": []}))
            }
            12 => {
                let st = self.stmts(d - 1, None);
                self.n("UncheckedBlock", json!({"statements": st}))
            }
            13 => self.block(d - 1, ret),
            14 => {
                // call for its effect
                let name = if !self.fnames.is_empty() && self.r.chance(60) { self.r.pick(&self.fnames.clone()).clone() } else { "notify".to_string() };
                let k = self.r.below(4);
                let mut args = vec![];
                for i in 0..k {
                    if i > 0 && self.o.repeat && self.r.chance(50) {
                        let p: &Value = &args[i - 1];
                        let c = self.reid(&p.clone());
                        args.push(c);
                    } else if self.o.sparse {
                        let a = self.num("uint256");
                        args.push(a);
                    } else {
                        let t = *self.r.pick(&["uint256", "uint256", "address", "string", "bool"]);
                        let a = self.expr(t, 1);
                        args.push(a);
                    }
                }
                let f = self.ident(&name, "function (uint256)");
                let names = if k == 2 && self.r.chance(30) { vec!["to", "amount"] } else { vec![] };
                let c = self.call(f, args, names, "tuple()");
                self.estmt(c)
            }
            15 => {
                let l = self.ident("lib", "address");
                let m = self.member(l, "delegatecall", "function (bytes memory) payable returns (bool,bytes memory)");
                let a = self.expr("bytes32", 0);
                let c = self.call(m, vec![a], vec![], "tuple(bool,bytes memory)");
                self.estmt(c)
            }
            16 => {
                if self.o.odd {
                    let e = self.odd_assignment();
                    self.estmt(e)
                } else {
                    let v = self.var("uint256").unwrap();
                    let s = self.ident(&v, "uint256");
                    let u = self.n("UnaryOperation", json!({"operator": "delete", "prefix": true, "subExpression": s, "typeDescriptions": Self::td("tuple()")}));
                    self.estmt(u)
                }
            }
            _ => {
                let t = self.ident("target", "contract ITarget");
                let m = self.member(t, "pay", "function (uint256) external payable");
                let v = self.expr("uint256", 1);
                let o = self.n("FunctionCallOptions", json!({"expression": m, "names": ["value"], "options": [v], "typeDescriptions": Self::td("function (uint256) external payable")}));
                let a = self.expr("uint256", 1);
                let b = self.expr("uint256", 1);
                let c = self.call(o, vec![a, b], vec![], "tuple()");
                self.estmt(c)
            }
        }
    }
    /// body of a control statement; true if it is a lone statement
    fn body(&mut self, d: usize, ret: Option<&'static str>) -> (Value, bool) {
        if self.r.chance(25) {
            let e = match self.r.below(3) {
                0 => {
                    let e = self.assignment(1);
                    self.estmt(e)
                }
                1 => self.require(1),
                _ => match ret {
                    Some(t) => self.ret(t, 1),
                    None => {
                        let e = self.assignment(1);
                        self.estmt(e)
                    }
                },
            };
            (e, true)
        } else {
            (self.block(d - 1, ret), false)
        }
    }
    fn ret(&mut self, t: &'static str, d: usize) -> Value {
        let e = self.expr(t, d);
        self.n("Return", json!({"expression": e, "functionReturnParameters": 1}))
    }
    fn stmts(&mut self, d: usize, ret: Option<&'static str>) -> Vec<Value> {
        let k0 = self.locals.len();
        let k = 1 + self.r.below(self.o.stmts);
        let mut v: Vec<Value> = vec![];
        for _ in 0..k {
            if self.o.repeat && !v.is_empty() && self.r.chance(35) && v.last().unwrap()["nodeType"] != "VariableDeclarationStatement" {
                let c = self.reid(&v.last().unwrap().clone());
                v.push(c);
            } else {
                let s = self.stmt(d, ret);
                v.push(s);
            }
        }
        if let Some(t) = ret {
            if self.r.chance(30) {
                let s = self.ret(t, 1);
                v.push(s);
            }
        }
        self.locals.truncate(k0);
        v
    }
    fn block(&mut self, d: usize, ret: Option<&'static str>) -> Value {
        let s = self.stmts(d, ret);
        self.n("Block", json!({"statements": s}))
    }
    fn doc(&mut self) -> Option<Value> {
        if !self.r.chance(if self.o.long { 60 } else { 10 }) {
            return None;
        }
        let mut t = "@notice Does what it says.\n@param to receiver".to_string();
        if self.o.long {
            t = match self.r.below(5) {
                0 => format!(" @notice {}", "lorem ipsum dolor sit amet ".repeat(1 + self.r.below(20))),
                1 => format!(" @dev see https://example.org/{}", "x".repeat(self.r.below(260))),
                2 => format!(" @dev naïve {}", "é ".repeat(self.r.below(150))),
                3 => " @dev ends */ here, then */ again".into(),
                _ => format!("{}\n{}", "a ".repeat(self.r.below(90)), "word ".repeat(self.r.below(90))),
            };
        }
        Some(self.n("StructuredDocumentation", json!({"text": t})))
    }
    fn function(&mut self, name: &str, kind: &str, scope_free: bool) -> Value {
        let k0 = self.locals.len();
        let mut ps = vec![];
        for i in 0..self.r.below(3) {
            let t = *self.r.pick(&["uint256", "address", "bool"]);
            let pn = if self.o.clash && self.r.chance(30) { self.r.pick(&FNAMES).to_string() } else if self.o.long && self.r.chance(30) { format!("{LONGNAME}{i}") } else { ["to", "amount", "flag"][i].to_string() };
            let p = self.decl(&pn, t, false);
            ps.push(p);
            self.locals.push((pn, t));
        }
        let ret: Option<&'static str> = if kind == "constructor" || self.r.chance(50) { None } else { Some(*self.r.pick(&["uint256", "bool", "int256"])) };
        let pl = self.n("ParameterList", json!({"parameters": ps}));
        let rp = match ret {
            Some(t) => {
                let rn = if self.o.clash && self.r.chance(20) { "total" } else { "" };
                let d = self.decl(rn, t, false);
                vec![d]
            }
            None => vec![],
        };
        let rl = self.n("ParameterList", json!({"parameters": rp}));
        let mods = if !scope_free && self.r.chance(25) {
            let mn = self.n("IdentifierPath", json!({"name": "guarded"}));
            let a = self.expr("uint256", 1);
            let m = self.n("ModifierInvocation", json!({"modifierName": mn, "arguments": [a], "kind": "modifierInvocation"}));
            vec![m]
        } else {
            vec![]
        };
        let mut st = self.stmts(self.o.depth, ret);
        if let Some(t) = ret {
            if st.last().map_or(true, |s| s["nodeType"] != "Return") && self.r.chance(70) {
                let r = self.ret(t, self.o.depth);
                st.push(r);
            }
        }
        let body = self.n("Block", json!({"statements": st}));
        self.locals.truncate(k0);
        let vis = if scope_free { "internal" } else { *self.r.pick(&["public", "external", "internal"]) };
        let mut mods = mods;
        let (mut virt, mut mutab, mut over) = (false, "nonpayable", Value::Null);
        if self.o.exotic {
            if !scope_free && self.r.chance(30) {
                let mn = self.n("IdentifierPath", json!({"name": "Base.locked"}));
                let mut m = json!({"modifierName": mn, "kind": "modifierInvocation"});
                if self.r.chance(30) {
                    m["arguments"] = json!([]);
                }
                let m = self.n("ModifierInvocation", m);
                mods.push(m);
            }
            mutab = *self.r.pick(&["nonpayable", "payable", "view", "pure"]);
            if kind == "constructor" || scope_free {
                mutab = *self.r.pick(&["nonpayable", "nonpayable", "payable"]);
            }
            if kind == "function" && !scope_free {
                virt = self.r.chance(30);
                if self.r.chance(30) {
                    over = self.overrides();
                }
            }
        }
        let mut j = json!({"name": name, "kind": kind, "implemented": true, "modifiers": mods, "parameters": pl, "returnParameters": rl, "body": body, "scope": 1, "stateMutability": mutab, "virtual": virt, "visibility": if kind == "constructor" {"public"} else {vis}});
        if !over.is_null() {
            j["overrides"] = over;
        }
        if let Some(d) = self.doc() {
            j["documentation"] = d;
        }
        self.n("FunctionDefinition", j)
    }
    fn contract(&mut self, name: &str, base: Option<&str>) -> Value {
        let mut nodes = vec![];
        for (s, t) in STATE {
            let mut d = self.decl(s, t, true);
            if t == "uint256" && self.r.chance(50) {
                d["value"] = self.expr("uint256", 1);
            }
            if self.r.chance(20) {
                d["visibility"] = "public".into();
            }
            nodes.push(d);
        }
        if self.o.clash {
            let n = *self.r.pick(&FNAMES);
            let mut d = self.decl(n, "uint256", true);
            let l = self.num("uint256");
            let r = self.num("uint256");
            d["value"] = self.bin("+", l, r, "uint256", "uint256");
            nodes.push(d);
        }
        let (a, u) = (self.typename("address"), self.typename("uint256"));
        let m = self.n("Mapping", json!({"keyType": a, "valueType": u, "typeDescriptions": Self::td("mapping(address => uint256)")}));
        let d = self.n("VariableDeclaration", json!({"name": "balances", "typeName": m, "constant": false, "mutability": "mutable", "stateVariable": true, "storageLocation": "default", "visibility": "internal", "typeDescriptions": Self::td("mapping(address => uint256)")}));
        nodes.push(d);
        {
            let (p, q) = (self.decl("who", "address", false), self.decl("amount", "uint256", false));
            let pl = self.n("ParameterList", json!({"parameters": [p, q]}));
            let n = if self.o.clash && self.r.chance(30) { "mint" } else { "Moved" };
            let e = self.n("EventDefinition", json!({"name": n, "anonymous": false, "parameters": pl}));
            nodes.push(e);
        }
        if self.r.chance(40) {
            let p = self.decl("who", "address", false);
            let pl = self.n("ParameterList", json!({"parameters": [p]}));
            let e = self.n("ErrorDefinition", json!({"name": "Denied", "parameters": pl}));
            nodes.push(e);
        }
        if self.r.chance(30) {
            let ms = vec![self.decl("a", "uint256", false), self.decl("b", "bool", false)];
            let s = self.n("StructDefinition", json!({"name": "Item", "members": ms, "visibility": "public"}));
            nodes.push(s);
            let ms = vec![self.n("EnumValue", json!({"name": "On"})), self.n("EnumValue", json!({"name": "Off"}))];
            let s = self.n("EnumDefinition", json!({"name": "Mode", "members": ms}));
            nodes.push(s);
        }
        {
            let p = self.decl("x", "uint256", false);
            self.locals.push(("x".into(), "uint256"));
            let pl = self.n("ParameterList", json!({"parameters": [p]}));
            let r = self.require(1);
            let ph = self.n("PlaceholderStatement", json!({}));
            let mut st = vec![r, ph];
            if self.r.chance(40) {
                let e = self.assignment(1);
                let s = self.estmt(e);
                st.push(s);
            }
            self.locals.clear();
            let b = self.n("Block", json!({"statements": st}));
            let n = if self.o.clash && self.r.chance(40) { "burn" } else { "guarded" };
            let m = self.n("ModifierDefinition", json!({"name": n, "parameters": pl, "virtual": false, "visibility": "internal", "body": b}));
            nodes.push(m);
        }
        if self.r.chance(40) {
            let f = self.function("", "constructor", false);
            nodes.push(f);
        }
        if self.o.exotic {
            self.xmembers(&mut nodes);
        }
        let k = 1 + self.r.below(self.o.funcs);
        for _ in 0..k {
            let n = self.r.pick(&FNAMES).to_string();
            self.fnames.push(n.clone());
            let f = self.function(&n, "function", false);
            nodes.push(f);
        }
        let mut bases = vec![];
        if let Some(b) = base {
            let p = self.n("IdentifierPath", json!({"name": b}));
            let mut j = json!({"baseName": p});
            if self.r.chance(60) {
                let a = self.expr("uint256", 1);
                j["arguments"] = json!([a]);
            }
            let s = self.n("InheritanceSpecifier", j);
            bases.push(s);
        }
        let mut j = json!({"name": name, "abstract": false, "baseContracts": bases, "contractDependencies": [], "contractKind": "contract", "fullyImplemented": true, "linearizedBaseContracts": [1], "nodes": nodes, "scope": 1});
        if let Some(d) = self.doc() {
            j["documentation"] = d;
        }
        self.n("ContractDefinition", j)
    }
    fn unit(&mut self) -> Value {
        let mut nodes = vec![];
        let p = self.n("PragmaDirective", json!({"literals": ["solidity", "^", "0.8", ".13"]}));
        nodes.push(p);
        if self.r.chance(25) {
            let p = self.n("ImportDirective", json!({"absolutePath": "lib/a.sol", "file": "lib/a.sol", "nameLocation": "-1:-1:-1", "symbolAliases": [], "unitAlias": ""}));
            nodes.push(p);
        }
        if self.o.exotic {
            self.xtop(&mut nodes);
        }
        if self.r.chance(20) {
            let n = self.r.pick(&FNAMES).to_string();
            let f = self.function(&n, "freeFunction", true);
            nodes.push(f);
        }
        if self.r.chance(30) {
            let c = self.contract("Base", None);
            nodes.push(c);
            let c = self.contract("Token", Some("Base"));
            nodes.push(c);
        } else {
            let c = self.contract("Token", None);
            nodes.push(c);
        }
        let mut u = self.n("SourceUnit", json!({"absolutePath": "a.sol", "exportedSymbols": {"Token": [1]}, "nodes": nodes}));
        if self.r.chance(60) {
            u["license"] = "MIT".into();
        }
        u
    }
}

// the less common parts of Solidity
impl<'a> Sol<'a> {
    fn tuple(&mut self, c: Vec<Value>, array: bool, t: &str) -> Value {
        self.n("TupleExpression", json!({"components": c, "isInlineArray": array, "isPure": false, "typeDescriptions": Self::td(t)}))
    }
    fn elem(&mut self, t: &str, mutability: Option<&str>) -> Value {
        let mut j = json!({"name": t, "typeDescriptions": {}});
        if let Some(m) = mutability {
            j["stateMutability"] = m.into();
        }
        let tn = self.n("ElementaryTypeName", j);
        self.n("ElementaryTypeNameExpression", json!({"isConstant": false, "isLValue": false, "isPure": true, "lValueRequested": false, "typeName": tn, "typeDescriptions": Self::td(&format!("type({t})"))}))
    }
    fn convert(&mut self, f: Value, a: Value, t: &str) -> Value {
        let mut c = self.call(f, vec![a], vec![], t);
        c["kind"] = "typeConversion".into();
        c
    }
    fn user(&mut self, name: &str) -> Value {
        let t = format!("struct {name}");
        if self.r.chance(80) {
            let p = self.n("IdentifierPath", json!({"name": name, "referencedDeclaration": 1}));
            self.n("UserDefinedTypeName", json!({"pathNode": p, "referencedDeclaration": 1, "typeDescriptions": Self::td(&t)}))
        } else {
            self.n("UserDefinedTypeName", json!({"name": name, "referencedDeclaration": 1, "typeDescriptions": Self::td(&t)}))
        }
    }
    fn array_type(&mut self, base: Value, len: Option<u64>, t: &str) -> Value {
        let mut j = json!({"baseType": base, "typeDescriptions": Self::td(t)});
        if let Some(n) = len {
            j["length"] = self.n("Literal", json!({"kind": "number", "value": n.to_string(), "isPure": true, "typeDescriptions": Self::td(&format!("int_const {n}"))}));
        }
        self.n("ArrayTypeName", j)
    }
    fn xtype(&mut self, d: usize) -> (Value, String) {
        match self.r.below(if d == 0 { 4 } else { 8 }) {
            0 => (self.typename("uint256"), "uint256".into()),
            1 => (self.user("Item"), "struct Item".into()),
            2 => (self.n("ElementaryTypeName", json!({"name": "address", "stateMutability": "payable", "typeDescriptions": Self::td("address payable")})), "address payable".into()),
            3 => (self.typename("bytes"), "bytes".into()),
            4 => {
                let (b, t) = self.xtype(d - 1);
                let t = format!("{t}[]");
                (self.array_type(b, None, &t), t)
            }
            5 => {
                let (b, t) = self.xtype(d - 1);
                let t = format!("{t}[3]");
                (self.array_type(b, Some(3), &t), t)
            }
            6 => {
                let k = self.typename("address");
                let (v, t) = self.xtype(d - 1);
                let t = format!("mapping(address => {t})");
                let mut j = json!({"keyType": k, "valueType": v, "keyName": "", "keyNameLocation": "-1:-1:-1", "valueName": "", "valueNameLocation": "-1:-1:-1", "typeDescriptions": Self::td(&t)});
                if self.r.chance(40) {
                    j["keyName"] = "holder".into();
                }
                if self.r.chance(40) {
                    j["valueName"] = "held".into();
                }
                (self.n("Mapping", j), t)
            }
            _ => {
                let mut list = |s: &mut Self, k: usize| {
                    let mut ps = vec![];
                    for _ in 0..k {
                        let t = *s.r.pick(&["uint256", "bool"]);
                        let p = s.decl("", t, false);
                        ps.push(p);
                    }
                    s.n("ParameterList", json!({"parameters": ps}))
                };
                let (a, b) = (self.r.below(3), self.r.below(3));
                let (p, r) = (list(self, a), list(self, b));
                let m = *self.r.pick(&["nonpayable", "view", "pure", "payable"]);
                let v = if m == "payable" || self.r.chance(50) { "external" } else { "internal" };
                (self.n("FunctionTypeName", json!({"parameterTypes": p, "returnParameterTypes": r, "stateMutability": m, "visibility": v, "typeDescriptions": Self::td("function ()")})), "function ()".into())
            }
        }
    }
    fn overrides(&mut self) -> Value {
        let mut l = vec![];
        if self.r.chance(50) {
            for b in ["Base", "lib.Other"].iter().take(1 + self.r.below(2)) {
                let p = self.n("IdentifierPath", json!({"name": b}));
                l.push(p);
            }
        }
        self.n("OverrideSpecifier", json!({"overrides": l}))
    }
    fn xtext(&mut self) -> Value {
        match self.r.below(5) {
            0 => {
                let h = *self.r.pick(&["00ff10", "", "deadbeef", "414243"]);
                let mut j = json!({"kind": "hexString", "hexValue": h, "isPure": true, "typeDescriptions": Self::td(&format!("literal_string hex\"{h}\""))});
                if h == "414243" {
                    j["value"] = "ABC".into();
                }
                if h.is_empty() {
                    j["value"] = "".into();
                }
                self.n("Literal", j)
            }
            1 => self.n("Literal", json!({"kind": "string", "hexValue": "61ff80c3", "isPure": true, "typeDescriptions": Self::td("literal_string hex\"61ff80c3\"")})),
            2 => {
                let t = *self.r.pick(&["a\tb\nc\rd", "bell\u{7} \u{8} \u{b} \u{c}", "nul\0 end", "\u{7f}", "caf\u{e9}", "\u{1f600} x", "q\"\\", "it's"]);
                let hex: String = t.bytes().map(|b| format!("{b:02x}")).collect();
                self.n("Literal", json!({"kind": "string", "hexValue": hex, "value": t, "isPure": true, "typeDescriptions": Self::td("literal_string \"x\"")}))
            }
            3 => {
                let t = *self.r.pick(&["\u{1f600} x", "na\u{ef}ve\ttab", "caf\u{e9}\r\n", "plain", "sep\u{2028}arated \u{85}", "\"q\" \\ \u{7f} \u{b}"]);
                self.n("Literal", json!({"kind": "unicodeString", "value": t, "isPure": true, "typeDescriptions": Self::td("literal_string \"x\"")}))
            }
            _ => {
                let t = *self.r.pick(&["/* no */ // comment", "{ } ; ( )", "  spaces   inside  ", "/*", "*/"]);
                self.n("Literal", json!({"kind": "string", "value": t, "isPure": true, "typeDescriptions": Self::td("literal_string \"x\"")}))
            }
        }
    }
    fn xexpr(&mut self, t: &'static str, d: usize) -> Option<Value> {
        Some(match t {
            "uint256" | "int256" | "uint8" | "int8" => match self.r.below(10) {
                0 => {
                    let f = self.ident("type", "function () pure");
                    let e = self.elem(t, None);
                    let c = self.call(f, vec![e], vec![], &format!("type({t})"));
                    let m = *self.r.pick(&["max", "min"]);
                    self.member(c, m, t)
                }
                1 => {
                    let mut c = vec![];
                    for _ in 0..1 + self.r.below(3) {
                        let e = self.expr(t, d - 1);
                        c.push(e);
                    }
                    let a = self.tuple(c, true, &format!("{t}[3] memory"));
                    let i = self.expr("uint256", 0);
                    self.n("IndexAccess", json!({"baseExpression": a, "indexExpression": i, "isLValue": true, "typeDescriptions": Self::td(t)}))
                }
                2 => {
                    let f = self.ident("abi", "abi");
                    let f = self.member(f, "decode", "function () pure");
                    let (x, ty) = (self.ident("data", "bytes calldata"), self.elem(t, None));
                    let ty = self.tuple(vec![ty], false, &format!("type({t})"));
                    self.call(f, vec![x, ty], vec![], t)
                }
                3 => {
                    let b = self.ident("data", "bytes calldata");
                    let mut j = json!({"baseExpression": b, "isLValue": false, "typeDescriptions": Self::td("bytes calldata slice")});
                    if self.r.chance(70) {
                        j["startExpression"] = self.expr("uint256", d - 1);
                    }
                    if self.r.chance(70) {
                        j["endExpression"] = self.expr("uint256", d - 1);
                    }
                    let s = self.n("IndexRangeAccess", j);
                    self.member(s, "length", t)
                }
                4 => {
                    let f = self.ident("Wad", "type(Wad)");
                    let w = *self.r.pick(&["wrap", "unwrap"]);
                    let f = self.member(f, w, "function (uint256) pure");
                    let a = self.expr(t, d - 1);
                    self.call(f, vec![a], vec![], t)
                }
                5 => {
                    let f = self.ident("Item", "type(struct Item)");
                    let (a, b) = (self.expr("uint256", d - 1), self.expr("bool", d - 1));
                    let names = if self.r.chance(60) { vec!["a", "b"] } else { vec![] };
                    let mut c = self.call(f, vec![a, b], names, "struct Item memory");
                    c["kind"] = "structConstructorCall".into();
                    self.member(c, "a", t)
                }
                6 => {
                    let b = self.ident("grid", "uint256[3][] storage ref");
                    let (i, k) = (self.expr("uint256", d - 1), self.expr("uint256", d - 1));
                    let e = self.n("IndexAccess", json!({"baseExpression": b, "indexExpression": i, "isLValue": true, "typeDescriptions": Self::td("uint256[3] storage ref")}));
                    self.n("IndexAccess", json!({"baseExpression": e, "indexExpression": k, "isLValue": true, "typeDescriptions": Self::td(t)}))
                }
                7 => {
                    let a = self.user("Token");
                    let e = self.n("NewExpression", json!({"typeName": a, "isPure": false, "typeDescriptions": Self::td("function () returns (contract Token)")}));
                    let salt = self.expr("bytes32", 0);
                    let v = self.expr("uint256", d - 1);
                    let e = self.n("FunctionCallOptions", json!({"expression": e, "names": ["value", "salt"], "options": [v, salt], "typeDescriptions": Self::td("function () payable")}));
                    let x = self.expr(t, d - 1);
                    let c = self.call(e, vec![x], vec![], "contract Token");
                    let m = self.member(c, "total", "function () view external returns (uint256)");
                    self.call(m, vec![], vec![], t)
                }
                8 => {
                    let s = self.expr(t, d - 1);
                    let s = self.paren(s, t);
                    let op = if self.r.chance(50) { "-" } else { "~" };
                    self.n("UnaryOperation", json!({"operator": op, "prefix": true, "subExpression": s, "isConstant": false, "isLValue": false, "isPure": false, "typeDescriptions": Self::td(t)}))
                }
                _ => {
                    let mut e = self.num(t);
                    let (v, s) = *self.r.pick(&[("0.5", "ether"), ("1", "gwei"), ("2", "weeks"), ("30", "seconds"), (".5", "ether"), ("2e-1", "ether"), ("0xAbCdEf", "")]);
                    e["value"] = v.into();
                    if let Value::Object(m) = &mut e {
                        m.remove("subdenomination");
                    }
                    if !s.is_empty() {
                        e["subdenomination"] = s.into();
                    }
                    e
                }
            },
            "bool" => match self.r.below(3) {
                0 => {
                    let l = self.ident("mode", "enum Mode");
                    let m = self.ident("Mode", "type(enum Mode)");
                    let r = self.member(m, "On", "enum Mode");
                    self.bin("==", l, r, "bool", "enum Mode")
                }
                1 => {
                    let c = self.expr("bool", d - 1);
                    self.tuple(vec![c], false, "bool")
                }
                _ => {
                    let f = self.ident("keccak256", "function (bytes memory) pure returns (bytes32)");
                    let e = self.elem("bytes", None);
                    let x = self.text();
                    let x = self.convert(e, x, "bytes memory");
                    let l = self.call(f, vec![x], vec![], "bytes32");
                    let r = self.expr("bytes32", 0);
                    self.bin("!=", l, r, "bool", "bytes32")
                }
            },
            "address" => match self.r.below(3) {
                0 => {
                    let f = self.elem("address", Some("payable"));
                    let a = self.expr("address", d - 1);
                    self.convert(f, a, "address payable")
                }
                1 => {
                    let f = self.elem("address", None);
                    let a = self.ident("this", "contract Token");
                    self.convert(f, a, "address")
                }
                _ => {
                    let f = self.elem("address", None);
                    let a = self.n("Literal", json!({"kind": "number", "value": "0x5B38Da6a701c568545dCfcB03FcB875f56beddC4", "isPure": true, "typeDescriptions": Self::td("address")}));
                    self.convert(f, a, "address")
                }
            },
            _ => return None,
        })
    }
    fn xdecl(&mut self, name: &str) -> Value {
        let (tn, t) = self.xtype(1);
        let refer = matches!(tn["nodeType"].as_str(), Some("ArrayTypeName")) || t == "struct Item" || t == "bytes";
        let loc = if t.starts_with("mapping") { "storage" } else if refer { *self.r.pick(&["memory", "storage", "calldata"]) } else { "default" };
        self.n("VariableDeclaration", json!({"name": name, "typeName": tn, "constant": false, "mutability": "mutable", "stateVariable": false, "storageLocation": loc, "visibility": "internal", "typeDescriptions": Self::td(&t)}))
    }
    fn xstmt(&mut self, d: usize, ret: Option<&'static str>) -> Value {
        let k = if d == 0 { *self.r.pick(&[2, 3, 4, 6, 7, 8]) } else { self.r.below(10) };
        match k {
            0 | 1 => {
                // a loop with parts left out
                let k = self.locals.len();
                let mut j = json!({});
                match self.r.below(3) {
                    0 => {}
                    1 => {
                        let e = self.assignment(1);
                        j["initializationExpression"] = self.estmt(e);
                    }
                    _ => {
                        let name = format!("i{k}");
                        let dcl = self.decl(&name, "uint256", false);
                        let mut v = json!({"assignments": [self.id], "declarations": [dcl]});
                        if self.r.chance(50) {
                            v["initialValue"] = self.num("uint256");
                        }
                        j["initializationExpression"] = self.n("VariableDeclarationStatement", v);
                        self.locals.push((name, "uint256"));
                    }
                }
                if self.r.chance(60) {
                    j["condition"] = self.expr("bool", d);
                }
                if self.r.chance(60) {
                    let e = self.assignment(1);
                    j["loopExpression"] = self.estmt(e);
                }
                let c = self.expr("bool", 1);
                let kind = *self.r.pick(&["Break", "Continue"]);
                let b = self.n(kind, json!({}));
                let b = if self.r.chance(50) { b } else { self.n("Block", json!({"statements": [b]})) };
                let i = self.n("IfStatement", json!({"condition": c, "trueBody": b}));
                let mut st = self.stmts(d - 1, None);
                st.push(i);
                j["body"] = self.n("Block", json!({"statements": st}));
                self.locals.truncate(k);
                self.n("ForStatement", j)
            }
            2 => {
                // several declarations, some left out
                let mut ds = vec![];
                let mut named = vec![];
                for i in 0..2 + self.r.below(3) {
                    if self.r.chance(35) {
                        ds.push(Value::Null);
                    } else {
                        let t = *self.r.pick(&["uint256", "bool"]);
                        let name = format!("w{}_{i}", self.locals.len());
                        let v = self.decl(&name, t, false);
                        ds.push(v);
                        named.push((name, t));
                    }
                }
                let f = self.ident("several", "function () returns (uint256,bool)");
                let a = self.expr("uint256", d.max(1));
                let c = self.call(f, vec![a], vec![], "tuple(uint256,bool)");
                self.locals.extend(named);
                self.n("VariableDeclarationStatement", json!({"assignments": [null, 1], "declarations": ds, "initialValue": c}))
            }
            3 => {
                let name = format!("x{}", self.locals.len());
                let dcl = self.xdecl(&name);
                let mut j = json!({"assignments": [self.id], "declarations": [dcl]});
                if self.r.chance(50) {
                    let (a, _) = (self.typename("uint256"), 0);
                    let a = self.array_type(a, None, "uint256[]");
                    let e = self.n("NewExpression", json!({"typeName": a, "isPure": true, "typeDescriptions": Self::td("function (uint256) pure returns (uint256[] memory)")}));
                    let n = self.expr("uint256", 1);
                    j["initialValue"] = self.call(e, vec![n], vec![], "uint256[] memory");
                }
                self.n("VariableDeclarationStatement", j)
            }
            4 => {
                // assignment to some of several values
                let mut c = vec![];
                for _ in 0..2 + self.r.below(3) {
                    if self.r.chance(40) {
                        c.push(Value::Null);
                    } else {
                        let v = self.var("uint256").unwrap();
                        let e = self.ident(&v, "uint256");
                        c.push(e);
                    }
                }
                let l = self.tuple(c, false, "tuple(uint256,uint256)");
                let f = self.ident("several", "function () returns (uint256,uint256)");
                let r = if self.r.chance(50) {
                    self.call(f, vec![], vec![], "tuple(uint256,uint256)")
                } else {
                    let (a, b) = (self.expr("uint256", 1), self.expr("uint256", 1));
                    self.tuple(vec![a, b], false, "tuple(uint256,uint256)")
                };
                let e = self.n("Assignment", json!({"operator": "=", "leftHandSide": l, "rightHandSide": r, "typeDescriptions": Self::td("tuple()")}));
                self.estmt(e)
            }
            5 => {
                let t = self.ident("target", "contract ITarget");
                let m = self.member(t, "poke", "function (uint256) external returns (uint256,bool)");
                let m = if self.r.chance(50) {
                    let (v, g) = (self.expr("uint256", 1), self.expr("uint256", 1));
                    self.n("FunctionCallOptions", json!({"expression": m, "names": ["value", "gas"], "options": [v, g], "typeDescriptions": Self::td("function (uint256) external payable")}))
                } else {
                    m
                };
                let a = self.expr("uint256", 1);
                let mut call = self.call(m, vec![a], vec![], "tuple(uint256,bool)");
                call["tryCall"] = true.into();
                let k0 = self.locals.len();
                let mut j = json!({"errorName": ""});
                if self.r.chance(70) {
                    let (p, q) = (self.decl("got", "uint256", false), self.decl("", "bool", false));
                    j["parameters"] = self.n("ParameterList", json!({"parameters": [p, q]}));
                    self.locals.push(("got".into(), "uint256"));
                }
                j["block"] = self.block(d - 1, ret);
                self.locals.truncate(k0);
                let mut clauses = vec![self.n("TryCatchClause", j)];
                for (name, var, ty) in [("Error", "reason", "string"), ("Panic", "code", "uint256"), ("", "raw", "bytes")] {
                    if self.r.chance(40) || (name.is_empty() && clauses.len() == 1) {
                        let b = self.block(d - 1, ret);
                        let mut p = self.decl(var, ty, false);
                        if ty == "bytes" {
                            p["storageLocation"] = "memory".into();
                        }
                        let pl = self.n("ParameterList", json!({"parameters": [p]}));
                        let c = self.n("TryCatchClause", json!({"errorName": name, "parameters": pl, "block": b}));
                        clauses.push(c);
                    }
                }
                self.n("TryStatement", json!({"externalCall": call, "clauses": clauses}))
            }
            6 => {
                let b = self.yblock(2, false);
                let mut j = json!({"AST": b, "evmVersion": "london", "externalReferences": []});
                if self.r.chance(40) {
                    j["flags"] = json!(["memory-safe"]);
                }
                if self.r.chance(15) {
                    j["documentation"] = "@solidity memory-safe-assembly".into();
                }
                self.n("InlineAssembly", j)
            }
            7 => {
                let f = self.ident("revert", "function (string memory) pure");
                let a = if self.r.chance(60) { vec![self.text()] } else { vec![] };
                let c = self.call(f, a, vec![], "tuple()");
                self.estmt(c)
            }
            8 => {
                let f = self.ident("list", "uint256[] storage ref");
                let f = self.member(f, "push", "function (uint256)");
                let a = if self.r.chance(60) { vec![self.expr("uint256", 1)] } else { vec![] };
                let c = self.call(f, a, vec![], "tuple()");
                self.estmt(c)
            }
            _ => {
                // a chain of conditions
                let (c1, c2) = (self.expr("bool", d), self.expr("bool", d));
                let (b1, b2) = (self.block(d - 1, ret), self.block(d - 1, ret));
                let mut inner = json!({"condition": c2, "trueBody": b2});
                if self.r.chance(60) {
                    inner["falseBody"] = self.body(d, ret).0;
                }
                let inner = self.n("IfStatement", inner);
                self.n("IfStatement", json!({"condition": c1, "trueBody": b1, "falseBody": inner}))
            }
        }
    }
    /// nodes of assembly have no id
    fn y(&mut self, ty: &str, v: Value) -> Value {
        let mut n = self.n(ty, v);
        n["nativeSrc"] = n["src"].clone();
        if let Value::Object(m) = &mut n {
            m.remove("id");
        }
        n
    }
    fn yexpr(&mut self, d: usize) -> Value {
        match self.r.below(if d == 0 { 4 } else { 6 }) {
            0 => self.y("YulIdentifier", json!({"name": "size"})),
            1 => self.y("YulIdentifier", json!({"name": "counter.slot"})),
            2 => self.y("YulLiteral", json!({"kind": "number", "value": "0x20", "type": ""})),
            3 => match self.r.below(4) {
                0 => self.y("YulLiteral", json!({"kind": "bool", "value": "true", "type": ""})),
                1 => self.y("YulLiteral", json!({"kind": "string", "value": "say \"hi\" \\", "hexValue": "736179202268692220 5c".replace(' ', ""), "type": ""})),
                2 => self.y("YulLiteral", json!({"kind": "string", "value": "abc", "hexValue": "616263", "type": ""})),
                _ => self.y("YulLiteral", json!({"kind": "string", "hexValue": "ff00", "type": ""})),
            },
            _ => {
                let f = *self.r.pick(&["add", "mload", "helper", "mul"]);
                let f = self.y("YulIdentifier", json!({"name": f}));
                let mut a = vec![];
                for _ in 0..self.r.below(3) {
                    let e = self.yexpr(d - 1);
                    a.push(e);
                }
                self.y("YulFunctionCall", json!({"functionName": f, "arguments": a}))
            }
        }
    }
    fn ystmt(&mut self, d: usize, inloop: bool) -> Value {
        match self.r.below(if d == 0 { 3 } else { 9 }) {
            0 => {
                let mut vs = vec![];
                for i in 0..1 + self.r.below(2) {
                    let v = self.y("YulTypedName", json!({"name": format!("y{i}"), "type": ""}));
                    vs.push(v);
                }
                let mut j = json!({"variables": vs});
                if self.r.chance(60) {
                    j["value"] = self.yexpr(2);
                }
                self.y("YulVariableDeclaration", j)
            }
            1 => {
                let mut vs = vec![];
                for i in 0..1 + self.r.below(2) {
                    let v = self.y("YulIdentifier", json!({"name": format!("y{i}")}));
                    vs.push(v);
                }
                let v = self.yexpr(2);
                self.y("YulAssignment", json!({"variableNames": vs, "value": v}))
            }
            2 => {
                let f = self.y("YulIdentifier", json!({"name": "sstore"}));
                let (a, b) = (self.yexpr(1), self.yexpr(1));
                let c = self.y("YulFunctionCall", json!({"functionName": f, "arguments": [a, b]}));
                self.y("YulExpressionStatement", json!({"expression": c}))
            }
            3 | 4 => {
                let (c, b) = (self.yexpr(1), self.yblock(d - 1, inloop));
                self.y("YulIf", json!({"condition": c, "body": b}))
            }
            5 => {
                let e = self.yexpr(1);
                let mut cases = vec![];
                for i in 0..self.r.below(3) {
                    let v = self.y("YulLiteral", json!({"kind": "number", "value": i.to_string(), "type": ""}));
                    let b = self.yblock(d - 1, inloop);
                    let c = self.y("YulCase", json!({"value": v, "body": b}));
                    cases.push(c);
                }
                if cases.is_empty() || self.r.chance(60) {
                    let b = self.yblock(d - 1, inloop);
                    let c = self.y("YulCase", json!({"value": "default", "body": b}));
                    cases.push(c);
                }
                self.y("YulSwitch", json!({"expression": e, "cases": cases}))
            }
            6 => {
                let (p, c, q, b) = (self.yblock(0, false), self.yexpr(1), self.yblock(0, false), self.yblock(d - 1, true));
                self.y("YulForLoop", json!({"pre": p, "condition": c, "post": q, "body": b}))
            }
            7 => {
                let mut names = |s: &mut Self, p: &str, k: usize| {
                    let mut v = vec![];
                    for i in 0..k {
                        let t = s.y("YulTypedName", json!({"name": format!("{p}{i}"), "type": ""}));
                        v.push(t);
                    }
                    v
                };
                let (a, b) = (self.r.below(3), self.r.below(3));
                let (ps, rs) = (names(self, "p", a), names(self, "r", b));
                let mut b = self.yblock(d - 1, false);
                if self.r.chance(50) {
                    let l = self.y("YulLeave", json!({}));
                    b["statements"].as_array_mut().unwrap().push(l);
                }
                let mut j = json!({"name": "helper", "body": b});
                if !ps.is_empty() || self.r.chance(50) {
                    j["parameters"] = ps.into();
                }
                if !rs.is_empty() {
                    j["returnVariables"] = rs.into();
                }
                self.y("YulFunctionDefinition", j)
            }
            _ => {
                if inloop {
                    let k = *self.r.pick(&["YulBreak", "YulContinue"]);
                    self.y(k, json!({}))
                } else {
                    self.yblock(d - 1, false)
                }
            }
        }
    }
    fn yblock(&mut self, d: usize, inloop: bool) -> Value {
        let mut st = vec![];
        for _ in 0..self.r.below(4) {
            let s = self.ystmt(d, inloop);
            st.push(s);
        }
        self.y("YulBlock", json!({"statements": st}))
    }
    fn using(&mut self, top: bool) -> Value {
        let mut j = json!({});
        if !top && self.r.chance(50) {
            j["libraryName"] = self.n("IdentifierPath", json!({"name": "Lib"}));
        } else {
            let mut l = vec![];
            for (i, f) in ["add", "Lib.scale", "negate"].iter().take(1 + self.r.below(3)).enumerate() {
                let p = self.n("IdentifierPath", json!({"name": f}));
                l.push(if top && i == 0 { json!({"definition": p, "operator": "+"}) } else { json!({"function": p}) });
            }
            j["functionList"] = l.into();
        }
        if top || j.get("functionList").is_some() || self.r.chance(70) {
            j["typeName"] = if top { self.user("Wad") } else { self.xtype(1).0 };
        }
        j["global"] = (top && self.r.chance(50)).into();
        self.n("UsingForDirective", j)
    }
    fn xmembers(&mut self, nodes: &mut Vec<Value>) {
        for i in 0..self.r.below(4) {
            let (tn, t) = self.xtype(2);
            let mut d = self.n("VariableDeclaration", json!({"name": format!("extra{i}"), "typeName": tn, "constant": false, "mutability": "mutable", "stateVariable": true, "storageLocation": "default", "visibility": "internal", "typeDescriptions": Self::td(&t)}));
            match self.r.below(4) {
                0 => {
                    d["visibility"] = "public".into();
                    d["overrides"] = self.overrides();
                }
                1 if t == "uint256" => {
                    d["constant"] = true.into();
                    d["mutability"] = "constant".into();
                    d["value"] = self.expr("uint256", 1);
                }
                2 if t == "uint256" => {
                    d["mutability"] = "immutable".into();
                    d["visibility"] = "private".into();
                }
                3 if t == "uint256" => d["storageLocation"] = "transient".into(),
                _ => {}
            }
            if self.r.chance(20) {
                if let Some(x) = self.doc() {
                    d["documentation"] = x;
                }
            }
            nodes.push(d);
        }
        for _ in 0..self.r.below(3) {
            let u = self.using(false);
            nodes.push(u);
        }
        if self.r.chance(40) {
            let u = self.typename("uint256");
            let t = self.n("UserDefinedValueTypeDefinition", json!({"name": "Price", "underlyingType": u}));
            nodes.push(t);
        }
        if self.r.chance(40) {
            let mut ps = vec![];
            for i in 0..self.r.below(4) {
                let t = *self.r.pick(&["uint256", "address", "bool"]);
                let name = if self.r.chance(70) { format!("e{i}") } else { String::new() };
                let mut p = self.decl(&name, t, false);
                p["indexed"] = self.r.chance(50).into();
                ps.push(p);
            }
            let pl = self.n("ParameterList", json!({"parameters": ps}));
            let anon = self.r.chance(40);
            let e = self.n("EventDefinition", json!({"name": "Seen", "anonymous": anon, "parameters": pl}));
            nodes.push(e);
        }
        if self.r.chance(40) {
            // a modifier that is overridden, perhaps without a body
            let pl = self.n("ParameterList", json!({"parameters": []}));
            let mut j = json!({"name": "locked", "parameters": pl, "virtual": true, "visibility": "internal"});
            if self.r.chance(50) {
                j["overrides"] = self.overrides();
            }
            if self.r.chance(60) {
                let ph = self.n("PlaceholderStatement", json!({}));
                j["body"] = self.n("Block", json!({"statements": [ph]}));
            }
            let m = self.n("ModifierDefinition", j);
            nodes.push(m);
        }
        if self.r.chance(30) {
            let mut f = self.function("", "receive", false);
            f["parameters"]["parameters"] = json!([]);
            f["returnParameters"]["parameters"] = json!([]);
            f["stateMutability"] = "payable".into();
            f["visibility"] = "external".into();
            nodes.push(f);
        }
        if self.r.chance(30) {
            let mut f = self.function("", "fallback", false);
            f["visibility"] = "external".into();
            f["virtual"] = self.r.chance(30).into();
            nodes.push(f);
        }
        if self.r.chance(30) {
            let mut f = self.function("later", "function", false);
            f["implemented"] = false.into();
            f["virtual"] = true.into();
            if let Value::Object(m) = &mut f {
                m.remove("body");
            }
            nodes.push(f);
        }
    }
    fn xtop(&mut self, nodes: &mut Vec<Value>) {
        if self.r.chance(40) {
            let l: Vec<&str> = match self.r.below(4) {
                0 => vec!["abicoder", "v2"],
                1 => vec!["solidity", ">=", "0.8", ".0", "<", "0.9", ".0"],
                2 => vec!["experimental", "ABIEncoderV2"],
                _ => vec!["solidity", "0.8", ".19"],
            };
            let p = self.n("PragmaDirective", json!({"literals": l}));
            nodes.push(p);
        }
        if self.r.chance(40) {
            let mut al = vec![];
            for i in 0..self.r.below(3) {
                let f = self.ident(&format!("Thing{i}"), "type(contract Thing)");
                let mut a = json!({"foreign": f, "nameLocation": "1:1:1"});
                if self.r.chance(50) {
                    a["local"] = format!("Local{i}").into();
                }
                al.push(a);
            }
            let unit = if al.is_empty() && self.r.chance(60) { "unit" } else { "" };
            let p = self.n("ImportDirective", json!({"absolutePath": "lib/b.sol", "file": "./lib/b.sol", "nameLocation": "-1:-1:-1", "symbolAliases": al, "unitAlias": unit}));
            nodes.push(p);
        }
        if self.r.chance(40) {
            let u = self.typename("uint256");
            let t = self.n("UserDefinedValueTypeDefinition", json!({"name": "Wad", "underlyingType": u}));
            nodes.push(t);
            let u = self.using(true);
            nodes.push(u);
        }
        if self.r.chance(30) {
            let mut d = self.decl("LIMIT", "uint256", false);
            d["constant"] = true.into();
            d["mutability"] = "constant".into();
            d["value"] = self.num("uint256");
            nodes.push(d);
        }
        if self.r.chance(30) {
            let p = self.decl("who", "address", false);
            let pl = self.n("ParameterList", json!({"parameters": [p]}));
            let e = self.n("ErrorDefinition", json!({"name": "Refused", "parameters": pl}));
            nodes.push(e);
            let ms = vec![self.n("EnumValue", json!({"name": "Red"}))];
            let s = self.n("EnumDefinition", json!({"name": "Colour", "members": ms}));
            nodes.push(s);
            let (tn, t) = self.xtype(2);
            let m = self.n("VariableDeclaration", json!({"name": "field", "typeName": tn, "constant": false, "mutability": "mutable", "stateVariable": false, "storageLocation": "default", "visibility": "internal", "typeDescriptions": Self::td(&t)}));
            let s = self.n("StructDefinition", json!({"name": "Outer", "members": [m], "visibility": "public"}));
            nodes.push(s);
        }
        if self.r.chance(40) {
            // an interface
            let mut f = self.function("poke", "function", false);
            f["implemented"] = false.into();
            f["visibility"] = "external".into();
            f["modifiers"] = json!([]);
            if let Value::Object(m) = &mut f {
                m.remove("body");
            }
            let c = self.n("ContractDefinition", json!({"name": "ITarget", "abstract": false, "baseContracts": [], "contractDependencies": [], "contractKind": "interface", "fullyImplemented": false, "linearizedBaseContracts": [1], "nodes": [f], "scope": 1}));
            nodes.push(c);
        }
        if self.r.chance(40) {
            // a library, perhaps empty
            let mut m = vec![];
            if self.r.chance(80) {
                let f = self.function("scale", "function", true);
                m.push(f);
            }
            let c = self.n("ContractDefinition", json!({"name": "Lib", "abstract": false, "baseContracts": [], "contractDependencies": [], "contractKind": "library", "fullyImplemented": true, "linearizedBaseContracts": [1], "nodes": m, "scope": 1}));
            nodes.push(c);
        }
    }
}

// ---------------------------------------------------------------------------------- Vyper
struct Vy<'a> {
    r: &'a mut Rng,
    o: &'a Opts,
    id: i64,
    locals: Vec<(String, &'static str)>,
    fnames: Vec<String>,
}
const VSTATE: [(&str, &str); 6] = [("counter", "uint256"), ("limit", "uint256"), ("delta", "int128"), ("paused", "bool"), ("owner", "address"), ("ratio", "decimal")];
impl<'a> Vy<'a> {
    fn n(&mut self, ty: &str, v: Value) -> Value {
        self.id += 1;
        let mut m = serde_json::Map::new();
        m.insert("ast_type".into(), ty.into());
        m.insert("node_id".into(), self.id.into());
        m.insert("lineno".into(), (self.id / 3 + 1).into());
        m.insert("col_offset".into(), 0.into());
        m.insert("end_lineno".into(), (self.id / 3 + 1).into());
        m.insert("end_col_offset".into(), 9.into());
        m.insert("src".into(), format!("{}:5:0", self.id * 7).into());
        if let Value::Object(o) = v {
            for (k, x) in o {
                m.insert(k, x);
            }
        }
        Value::Object(m)
    }
    fn name(&mut self, id: &str) -> Value {
        self.n("Name", json!({"id": id}))
    }
    fn op(&mut self, o: &str) -> Value {
        self.n(o, json!({}))
    }
    fn attr(&mut self, v: &str, a: &str) -> Value {
        let b = self.name(v);
        self.n("Attribute", json!({"value": b, "attr": a}))
    }
    fn int(&mut self) -> Value {
        if self.o.exotic && self.r.chance(15) {
            if self.r.chance(40) {
                let v = *self.r.pick(&[10000000000000000000u64, 12345678901234567890, u64::MAX, 9223372036854775808]);
                return self.n("Int", json!({"value": v}));
            }
            let v = *self.r.pick(&[-1i64, -7, -128, i64::MIN]);
            return self.n("Int", json!({"value": v}));
        }
        let v = match self.r.below(5) {
            0 => 0,
            1 => 1,
            2 if self.o.odd => *self.r.pick(&[9223372036854775807i64, 9223372036854775806, 1000000000000]),
            _ => self.r.range(2, 300),
        };
        self.n("Int", json!({"value": v}))
    }
    fn leaf(&mut self, t: &'static str) -> Value {
        let c: Vec<String> = self.locals.iter().filter(|l| l.1 == t).map(|l| l.0.clone()).collect();
        if !c.is_empty() && self.r.chance(40) {
            let v = self.r.pick(&c).clone();
            return self.name(&v);
        }
        match t {
            "uint256" | "int128" => {
                if self.r.chance(50) {
                    self.int()
                } else {
                    self.attr("self", if t == "uint256" { "counter" } else { "delta" })
                }
            }
            "bool" => {
                if self.r.chance(50) {
                    let b = self.r.chance(50);
                    self.n("NameConstant", json!({"value": b}))
                } else {
                    self.attr("self", "paused")
                }
            }
            "address" => {
                if self.r.chance(50) {
                    self.attr("msg", "sender")
                } else {
                    self.attr("self", "owner")
                }
            }
            "decimal" => self.n("Decimal", json!({"value": "1.5"})),
            "string" => {
                if self.o.exotic && self.r.chance(20) {
                    let t = *self.r.pick(&["tab\there", "line\r\nend", "nul\0byte", "bell\u{7}", "", "it's", "\u{ff}\u{a3}", "\\\"\"\"", "del\u{7f}", "{brace} %s"]);
                    return self.n("Str", json!({"value": t}));
                }
                let t = if self.o.odd && self.r.chance(20) { *self.r.pick(&["naïve text", "say \"no\"", "a\\b # c"]) } else { *self.r.pick(&["no", "not allowed", "limit exceeded"]) };
                self.n("Str", json!({"value": t}))
            }
            _ => self.attr("self", "owner"),
        }
    }
    fn call(&mut self, f: Value, args: Vec<Value>, kws: Vec<Value>) -> Value {
        self.n("Call", json!({"func": f, "args": args, "keywords": kws}))
    }
    fn keyword(&mut self, k: &str, v: Value) -> Value {
        self.n("keyword", json!({"arg": k, "value": v}))
    }
    fn index(&mut self, v: Value, i: Value) -> Value {
        let i = self.n("Index", json!({"value": i}));
        self.n("Subscript", json!({"value": v, "slice": i}))
    }
    fn sized(&mut self, t: &str, k: i64) -> Value {
        let t = self.name(t);
        let k = self.n("Int", json!({"value": k}));
        self.index(t, k)
    }
    fn xtype(&mut self) -> Value {
        match self.r.below(6) {
            0 => self.sized("Bytes", 32),
            1 => self.sized("String", 100),
            2 => self.sized("uint256", 3),
            3 => {
                let a = self.sized("int128", 2);
                let k = self.int();
                self.index(a, k)
            }
            4 => {
                let (d, a, k) = (self.name("DynArray"), self.sized("address", 2), self.name("LIMIT"));
                let tp = self.n("Tuple", json!({"elements": [a, k]}));
                self.index(d, tp)
            }
            _ => {
                let (h, k, v) = (self.name("HashMap"), self.name("address"), self.name("bool"));
                let tp = self.n("Tuple", json!({"elements": [k, v]}));
                let inner = self.index(h, tp);
                let (h, k) = (self.name("HashMap"), self.name("uint256"));
                let tp = self.n("Tuple", json!({"elements": [k, inner]}));
                self.index(h, tp)
            }
        }
    }
    /// the less common expressions
    fn xexpr(&mut self, t: &'static str, d: usize) -> Value {
        match (t, self.r.below(9)) {
            ("uint256" | "int128", 0) => {
                let o = self.op("USub");
                let x = loop {
                    // the sign of a number is part of the number
                    let x = self.expr(t, d - 1);
                    if x["ast_type"] != "Int" {
                        break x;
                    }
                };
                self.n("UnaryOp", json!({"op": o, "operand": x}))
            }
            ("uint256" | "int128", 1) => {
                let op = *self.r.pick(&["LShift", "RShift", "Pow"]);
                let (l, r) = (self.expr(t, d - 1), self.expr(t, d - 1));
                let op = self.op(op);
                self.n("BinOp", json!({"left": l, "op": op, "right": r}))
            }
            ("uint256", 2) => {
                let f = self.name("_abi_decode");
                let a = self.name("data");
                let tp = vec![self.name("uint256"), self.name("bool")];
                let tp = self.n("Tuple", json!({"elements": tp}));
                let c = self.call(f, vec![a, tp], vec![]);
                let k = self.n("Int", json!({"value": 0}));
                self.index(c, k)
            }
            ("uint256", 3) => {
                let f = self.name("ERC20");
                let a = self.expr("address", d - 1);
                let c = self.call(f, vec![a], vec![]);
                let f = self.n("Attribute", json!({"value": c, "attr": "balanceOf"}));
                let a = self.expr("address", d - 1);
                let mut kws = vec![];
                if self.r.chance(50) {
                    let v = self.expr("uint256", d - 1);
                    kws.push(self.keyword("default_return_value", v));
                    if self.r.chance(40) {
                        let v = self.leaf("bool");
                        kws.push(self.keyword("skip_contract_check", v));
                    }
                }
                self.call(f, vec![a], kws)
            }
            ("uint256", 4) => {
                let f = self.attr("self", "items");
                let i = self.expr("uint256", d - 1);
                let s = self.index(f, i);
                let j = self.expr("uint256", 0);
                let s = if self.r.chance(40) { self.index(s, j) } else { s };
                self.n("Attribute", json!({"value": s, "attr": "a"}))
            }
            ("uint256", 5) => {
                let b = self.r.below(4);
                let h: String = (0..b).map(|_| format!("{:02x}", self.r.below(256))).collect();
                let a = self.n("Bytes", json!({"value": format!("0x{h}")}));
                let (f, ty) = (self.name("convert"), self.name("uint256"));
                self.call(f, vec![a, ty], vec![])
            }
            ("bool", 0..=2) => {
                let op = *self.r.pick(&["And", "Or"]);
                let k = 3 + self.r.below(3);
                let mut v = vec![];
                for _ in 0..k {
                    v.push(self.expr("bool", d - 1));
                }
                let op = self.op(op);
                self.n("BoolOp", json!({"op": op, "values": v}))
            }
            ("bool", 3) => {
                let (o, x) = (self.op("Not"), self.expr("bool", d - 1));
                let x = self.n("UnaryOp", json!({"op": o, "operand": x}));
                let y = self.expr("bool", d - 1);
                let op = *self.r.pick(&["Eq", "NotEq"]);
                let op = self.op(op);
                let (l, r) = if self.r.chance(50) { (x, y) } else { (y, x) };
                self.n("Compare", json!({"left": l, "op": op, "right": r}))
            }
            ("bool", 4) => {
                let (l, r) = (self.attr("self", "role"), self.attr("Role", "ADMIN"));
                let op = *self.r.pick(&["In", "NotIn"]);
                let op = self.op(op);
                self.n("Compare", json!({"left": l, "op": op, "right": r}))
            }
            ("address", 0..=2) => {
                let h = *self.r.pick(&["0x0000000000000000000000000000000000000000", "0xdAC17F958D2ee523a2206206994597C13D831ec7", "0xC02aaA39b223FE8D0A0e5C4F27eAD9083C756Cc2"]);
                self.n("Hex", json!({"value": h}))
            }
            ("address", 3..=5) => {
                let (f, a) = (self.name("create_minimal_proxy_to"), self.attr("self", "owner"));
                let v = self.n("NameConstant", json!({"value": true}));
                let (k1, k2) = {
                    let x = self.name("msg");
                    let x = self.n("Attribute", json!({"value": x, "attr": "value"}));
                    (self.keyword("value", x), self.keyword("revert_on_failure", v))
                };
                if self.r.chance(30) {
                    let f = self.name("empty_proxy");
                    self.call(f, vec![], vec![k1, k2])
                } else {
                    self.call(f, vec![a], vec![k1, k2])
                }
            }
            ("address", 6) => {
                let (f, a) = (self.name("empty"), self.name("address"));
                self.call(f, vec![a], vec![])
            }
            ("decimal", _) => {
                let v = *self.r.pick(&["0.0", "-1.5", "0.0000000001", "1000000.25"]);
                self.n("Decimal", json!({"value": v}))
            }
            (_, 7 | 8) if t != "string" => {
                let (c, a, b) = (self.expr("bool", d - 1), self.expr(t, d - 1), self.expr(t, d - 1));
                self.n("IfExp", json!({"test": c, "body": a, "orelse": b}))
            }
            _ => self.leaf(t),
        }
    }
    /// the less common statements
    fn xstmt(&mut self, d: usize) -> Value {
        match self.r.below(12) {
            0 => self.n("Raise", json!({"exc": null})),
            1 => {
                let u = self.name("UNREACHABLE");
                self.n("Raise", json!({"exc": u}))
            }
            2 => {
                let (c, u) = (self.expr("bool", d.max(1)), self.name("UNREACHABLE"));
                self.n("Assert", json!({"test": c, "msg": u}))
            }
            3 => {
                let e = vec![self.attr("self", "counter"), self.attr("self", "paused")];
                let t = self.n("Tuple", json!({"elements": e}));
                let v = if self.r.chance(50) {
                    let e = vec![self.expr("uint256", d.max(1)), self.expr("bool", d.max(1))];
                    self.n("Tuple", json!({"elements": e}))
                } else {
                    let f = self.attr("self", "pair");
                    self.call(f, vec![], vec![])
                };
                self.n("Assign", json!({"target": t, "value": v}))
            }
            4 => {
                // a struct
                let (k, v) = (vec![self.name("a"), self.name("b")], vec![self.expr("uint256", d.max(1)), self.expr("bool", 1)]);
                let dict = self.n("Dict", json!({"keys": k, "values": v}));
                let f = self.name("Item");
                let c = self.call(f, vec![dict], vec![]);
                let (a, i) = (self.attr("self", "items"), self.expr("uint256", 1));
                let t = self.index(a, i);
                self.n("Assign", json!({"target": t, "value": c}))
            }
            5 => {
                let op = *self.r.pick(&["Mod", "Pow", "BitAnd", "BitOr", "BitXor", "Div", "LShift", "RShift"]);
                let op = self.op(op);
                let (b, i) = (self.attr("self", "balances"), self.expr("address", 1));
                let target = self.index(b, i);
                let v = self.expr("uint256", d.max(1));
                self.n("AugAssign", json!({"target": target, "op": op, "value": v}))
            }
            6 => {
                // keywords only, or a nested tuple
                let f = self.name("raw_call");
                let e = vec![self.name("uint256"), self.name("bool")];
                let tp = self.n("Tuple", json!({"elements": e}));
                let tp = if self.r.chance(40) { self.n("List", json!({"elements": [tp]})) } else { tp };
                let v = self.expr("uint256", 1);
                let kws = vec![self.keyword("output_type", tp), self.keyword("gas", v)];
                let args = if self.r.chance(50) { vec![] } else { vec![self.expr("address", 1), self.leaf("string")] };
                let c = self.call(f, args, kws);
                self.n("Expr", json!({"value": c}))
            }
            7 if d > 0 => {
                // over a list, or a range with two bounds
                let k = self.locals.len();
                let name = format!("i{k}");
                let t = self.name(&name);
                let it = if self.r.chance(50) {
                    let e = vec![self.int(), self.expr("uint256", 1)];
                    self.n("List", json!({"elements": e}))
                } else {
                    let f = self.name("range");
                    let a = vec![self.expr("uint256", 0), self.expr("uint256", 1)];
                    let kws = if self.r.chance(30) {
                        let v = self.int();
                        vec![self.keyword("bound", v)]
                    } else {
                        vec![]
                    };
                    self.call(f, a, kws)
                };
                self.locals.push((name, "uint256"));
                let b = self.suite(d - 1, true, None);
                self.locals.truncate(k);
                self.n("For", json!({"target": t, "iter": it, "body": b}))
            }
            8 => {
                let name = format!("v{}", self.locals.len());
                let target = self.name(&name);
                let ann = self.xtype();
                let f = self.name("empty");
                let a = self.xtype();
                let v = self.call(f, vec![a], vec![]);
                self.locals.push((name, "other"));
                self.n("AnnAssign", json!({"target": target, "annotation": ann, "value": v, "simple": 1}))
            }
            9 => {
                let (a, f) = (self.attr("self", "queue"), *self.r.pick(&["append", "pop"]));
                let f = self.n("Attribute", json!({"value": a, "attr": f}));
                let args = if self.r.chance(50) { vec![] } else { vec![self.expr("uint256", 1)] };
                let c = self.call(f, args, vec![]);
                self.n("Expr", json!({"value": c}))
            }
            10 if d > 0 && self.r.chance(15) => {
                // a long chain of elif
                let k = 30 + self.r.below(20);
                let mut e: Vec<Value> = vec![self.n("Pass", json!({}))];
                for _ in 0..k {
                    let c = self.expr("bool", 1);
                    let b = vec![self.assign(1)];
                    e = vec![self.n("If", json!({"test": c, "body": b, "orelse": e}))];
                }
                e.pop().unwrap()
            }
            _ => {
                let f = self.name("Moved");
                let c = self.call(f, vec![], vec![]);
                self.n("Log", json!({"value": c}))
            }
        }
    }
    fn ann(&mut self, target: &str, a: Value) -> Value {
        let t = self.name(target);
        self.n("AnnAssign", json!({"target": t, "annotation": a, "value": null, "simple": 1}))
    }
    /// the less common declarations
    fn xtop(&mut self, body: &mut Vec<Value>) {
        if self.r.chance(40) {
            let (l, m): (i64, Value) = match self.r.below(5) {
                0 => (1, Value::Null),
                1 => (2, Value::Null),
                2 => (1, "interfaces".into()),
                3 => (2, "lib.tokens".into()),
                _ => (0, "a.b.c".into()),
            };
            let mut j = json!({"level": l, "module": m, "name": "Vault", "alias": null});
            if self.r.chance(40) {
                j["alias"] = "V".into();
            }
            body.push(self.n("ImportFrom", j));
        }
        if self.r.chance(30) {
            body.push(self.n("Import", json!({"name": "interfaces.Vault", "alias": "Vault"})));
        }
        if self.r.chance(40) {
            let (t, a) = (self.name("implements"), self.name("ERC20"));
            body.push(self.n("ImplementsDecl", json!({"target": t, "annotation": a, "value": null, "simple": 1})));
        }
        if self.r.chance(50) {
            let mut b = vec![];
            for m in ["ADMIN", "USER", "GUEST"].iter().take(1 + self.r.below(3)) {
                let m = self.name(m);
                b.push(self.n("Expr", json!({"value": m})));
            }
            body.push(self.n("EnumDef", json!({"name": "Role", "body": b})));
            let (t, a) = (self.name("role"), self.name("Role"));
            body.push(self.n("VariableDecl", json!({"target": t, "annotation": a, "value": null, "is_public": false, "is_constant": false, "is_immutable": false})));
        }
        if self.r.chance(40) {
            let p = self.n("Pass", json!({}));
            body.push(self.n("EventDef", json!({"name": "Nothing", "body": [p]})));
        }
        if self.r.chance(50) {
            let (a, t) = (self.xtype(), self.name("uint256"));
            let b = vec![self.ann("a", t), self.ann("b", a)];
            body.push(self.n("StructDef", json!({"name": "Pair", "body": b})));
        }
        for i in 0..self.r.below(4) {
            let (t, a) = (self.name(["items", "queue", "cache", "FEE"][i]), self.xtype());
            let public = self.r.chance(40);
            let (c, im) = [(false, false), (false, true), (true, false)][self.r.below(3)];
            let v = if c {
                let e = vec![self.int(), self.int()];
                self.n("List", json!({"elements": e}))
            } else {
                Value::Null
            };
            body.push(self.n("VariableDecl", json!({"target": t, "annotation": a, "value": v, "is_public": public, "is_constant": c, "is_immutable": im})));
        }
        if self.r.chance(40) {
            // functions of an interface, with every mutability
            let mut fs = vec![];
            for (n, m) in [("see", "view"), ("pay", "payable"), ("poke", "nonpayable"), ("calc", "pure")] {
                let a = self.args();
                self.locals.clear();
                let v = self.name(m);
                let e = self.n("Expr", json!({"value": v}));
                let r = match self.r.below(3) {
                    0 => Value::Null,
                    1 => {
                        let e = vec![self.name("uint256"), self.name("bool")];
                        self.n("Tuple", json!({"elements": e}))
                    }
                    _ => self.xtype(),
                };
                fs.push(self.n("FunctionDef", json!({"name": n, "args": a, "returns": r, "decorator_list": [], "body": [e], "doc_string": null})));
            }
            body.push(self.n("InterfaceDef", json!({"name": "Vaultlike", "body": fs})));
        }
    }
    fn expr(&mut self, t: &'static str, d: usize) -> Value {
        if d == 0 || (self.o.sparse && self.r.chance(50)) {
            return self.leaf(t);
        }
        if self.o.exotic && self.r.chance(25) {
            return self.xexpr(t, d);
        }
        match t {
            "uint256" | "int128" => match self.r.below(9) {
                0..=3 => {
                    let op = *self.r.pick(&["Add", "Sub", "Mult", "Div", "Mod", "Pow"]);
                    let (l, r) = (self.expr(t, d - 1), self.expr(t, d - 1));
                    let op = self.op(op);
                    self.n("BinOp", json!({"left": l, "op": op, "right": r}))
                }
                4 => {
                    let op = *self.r.pick(&["BitAnd", "BitOr", "BitXor"]);
                    let (l, r) = (self.expr(t, d - 1), self.expr(t, d - 1));
                    let op = self.op(op);
                    self.n("BinOp", json!({"left": l, "op": op, "right": r}))
                }
                5 => {
                    let f = *self.r.pick(&["max", "min", "convert", "unsafe_add"]);
                    let f = self.name(f);
                    let (a, b) = (self.expr(t, d - 1), self.expr(t, d - 1));
                    let b = if self.o.repeat && self.r.chance(40) { self.reid(&a) } else { b };
                    self.n("Call", json!({"func": f, "args": [a, b], "keywords": []}))
                }
                6 => {
                    let b = self.attr("self", "balances");
                    let i = self.expr("address", d - 1);
                    let i = self.n("Index", json!({"value": i}));
                    self.n("Subscript", json!({"value": b, "slice": i}))
                }
                7 if !self.fnames.is_empty() => {
                    let n = self.r.pick(&self.fnames.clone()).clone();
                    let f = self.attr("self", &n);
                    let k = self.r.below(3);
                    let mut args = vec![];
                    for _ in 0..k {
                        let a = self.expr(t, d - 1);
                        args.push(a);
                    }
                    self.n("Call", json!({"func": f, "args": args, "keywords": []}))
                }
                _ => {
                    let o = self.op("Invert");
                    let x = self.expr(t, d - 1);
                    self.n("UnaryOp", json!({"op": o, "operand": x}))
                }
            },
            "bool" => match self.r.below(7) {
                0..=2 => {
                    let op = *self.r.pick(&["Eq", "NotEq", "Gt", "GtE", "Lt", "LtE"]);
                    let (l, r) = (self.expr("uint256", d - 1), self.expr("uint256", d - 1));
                    let op = self.op(op);
                    self.n("Compare", json!({"left": l, "op": op, "right": r}))
                }
                3 => {
                    let op = *self.r.pick(&["And", "Or"]);
                    let (l, r) = (self.expr("bool", d - 1), self.expr("bool", d - 1));
                    let op = self.op(op);
                    self.n("BoolOp", json!({"op": op, "values": [l, r]}))
                }
                4 => {
                    let o = self.op("Not");
                    let x = self.expr("bool", d - 1);
                    self.n("UnaryOp", json!({"op": o, "operand": x}))
                }
                5 if self.o.odd => {
                    let (l, r) = (self.expr("uint256", 0), vec![self.int(), self.int()]);
                    let r = self.n("List", json!({"elements": r}));
                    let op = *self.r.pick(&["In", "NotIn"]);
                    let op = self.op(op);
                    self.n("Compare", json!({"left": l, "op": op, "right": r}))
                }
                _ => self.leaf("bool"),
            },
            _ => self.leaf(t),
        }
    }
    fn reid(&mut self, v: &Value) -> Value {
        let mut c = v.clone();
        fn go(v: &mut Value, id: &mut i64) {
            match v {
                Value::Array(a) => a.iter_mut().for_each(|x| go(x, id)),
                Value::Object(m) => {
                    if m.contains_key("ast_type") {
                        *id += 1;
                        m.insert("node_id".into(), (*id).into());
                    }
                    m.values_mut().for_each(|x| go(x, id));
                }
                _ => {}
            }
        }
        go(&mut c, &mut self.id);
        c
    }
    fn assign(&mut self, d: usize) -> Value {
        let (s, t) = *self.r.pick(&VSTATE);
        let target = self.attr("self", s);
        let v = self.expr(t, d);
        if matches!(t, "uint256" | "int128") && self.r.chance(30) {
            let op = *self.r.pick(&["Add", "Sub", "Mult"]);
            let op = self.op(op);
            self.n("AugAssign", json!({"target": target, "op": op, "value": v}))
        } else {
            self.n("Assign", json!({"target": target, "value": v}))
        }
    }
    fn stmt(&mut self, d: usize, inloop: bool, ret: Option<&'static str>) -> Value {
        if self.o.exotic && self.r.chance(25) {
            return self.xstmt(d);
        }
        let w: [u32; 10] = if d == 0 { [8, 3, 3, 0, 0, 2, 2, 0, 1, 1] } else { [8, 4, 3, 5, 4, 2, 2, if inloop { 2 } else { 0 }, 1, 1] };
        match self.r.weighted(&w) {
            0 => self.assign(d.max(1)),
            1 => {
                let t = *self.r.pick(&["uint256", "bool", "int128"]);
                let name = format!("v{}", self.locals.len());
                let target = self.name(&name);
                let ann = self.name(t);
                let v = self.expr(t, d.max(1));
                self.locals.push((name, t));
                self.n("AnnAssign", json!({"target": target, "annotation": ann, "value": v, "simple": 1}))
            }
            2 => {
                let c = self.expr("bool", d.max(1));
                let mut j = json!({"test": c});
                if self.r.chance(60) {
                    j["msg"] = self.leaf("string");
                }
                self.n("Assert", j)
            }
            3 => {
                let c = self.expr("bool", d);
                let b = self.suite(d - 1, inloop, ret);
                let e = match self.r.below(4) {
                    0 => self.suite(d - 1, inloop, ret),
                    1 => {
                        let c = self.expr("bool", 1);
                        let b = self.suite(d - 1, inloop, ret);
                        vec![self.n("If", json!({"test": c, "body": b, "orelse": []}))]
                    }
                    _ => vec![],
                };
                self.n("If", json!({"test": c, "body": b, "orelse": e}))
            }
            4 => {
                let k = self.locals.len();
                let name = format!("i{k}");
                let t = self.name(&name);
                let f = self.name("range");
                let a = self.int();
                let it = self.n("Call", json!({"func": f, "args": [a], "keywords": []}));
                self.locals.push((name, "uint256"));
                let b = self.suite(d - 1, true, ret);
                self.locals.truncate(k);
                self.n("For", json!({"target": t, "iter": it, "body": b}))
            }
            5 => {
                let f = self.name("Moved");
                let (a, b) = (self.expr("address", 0), self.expr("uint256", 1));
                let c = self.n("Call", json!({"func": f, "args": [a, b], "keywords": []}));
                self.n("Log", json!({"value": c}))
            }
            6 => {
                let f = if self.fnames.is_empty() || self.r.chance(50) { self.name("send") } else {
                    let n = self.r.pick(&self.fnames.clone()).clone();
                    self.attr("self", &n)
                };
                let (a, b) = (self.expr("address", 0), self.expr("uint256", 1));
                let mut kws = vec![];
                if self.r.chance(30) {
                    let v = self.expr("uint256", 1);
                    kws.push(self.n("keyword", json!({"arg": "gas", "value": v})));
                }
                let c = self.n("Call", json!({"func": f, "args": [a, b], "keywords": kws}));
                self.n("Expr", json!({"value": c}))
            }
            7 => {
                let k = *self.r.pick(&["Break", "Continue"]);
                self.n(k, json!({}))
            }
            8 => {
                let s = self.leaf("string");
                self.n("Raise", json!({"exc": s}))
            }
            _ => self.n("Pass", json!({})),
        }
    }
    fn suite(&mut self, d: usize, inloop: bool, ret: Option<&'static str>) -> Vec<Value> {
        let k0 = self.locals.len();
        let k = 1 + self.r.below(self.o.stmts);
        let mut v: Vec<Value> = vec![];
        for _ in 0..k {
            if self.o.repeat && !v.is_empty() && self.r.chance(35) && v.last().unwrap()["ast_type"] != "AnnAssign" {
                let c = self.reid(&v.last().unwrap().clone());
                v.push(c);
            } else {
                let s = self.stmt(d, inloop, ret);
                v.push(s);
            }
        }
        if let Some(t) = ret {
            if self.r.chance(25) {
                let e = self.expr(t, 1);
                v.push(self.n("Return", json!({"value": e})));
            }
        }
        self.locals.truncate(k0);
        v
    }
    fn args(&mut self) -> Value {
        let mut a = vec![];
        for i in 0..self.r.below(3) {
            let t = *self.r.pick(&["uint256", "address", "bool"]);
            let pn = if self.o.clash && self.r.chance(30) { self.r.pick(&FNAMES).to_string() } else { ["to", "amount", "flag"][i].to_string() };
            let ann = self.name(t);
            a.push(self.n("arg", json!({"arg": pn, "annotation": ann})));
            self.locals.push((pn, t));
        }
        let mut d = vec![];
        if !a.is_empty() && self.r.chance(25) {
            d.push(self.int());
        }
        self.n("arguments", json!({"args": a, "defaults": d}))
    }
    fn function(&mut self, name: &str) -> Value {
        let k0 = self.locals.len();
        let mut decs = vec![];
        let d = *self.r.pick(&["external", "internal"]);
        decs.push(self.name(d));
        if self.r.chance(25) {
            let f = self.name("nonreentrant");
            let a = self.n("Str", json!({"value": "lock"}));
            decs.push(self.n("Call", json!({"func": f, "args": [a], "keywords": []})));
        }
        if self.o.exotic {
            for k in ["view", "pure", "payable"] {
                if self.r.chance(12) {
                    decs.push(self.name(k));
                }
            }
        }
        let args = self.args();
        if self.o.exotic && self.r.chance(12) {
            return self.xfunction(name, decs, args, k0);
        }
        let ret: Option<&'static str> = if name == "__init__" || self.r.chance(50) { None } else { Some(*self.r.pick(&["uint256", "bool", "int128", "address"])) };
        let mut j = json!({"name": name, "decorator_list": decs, "args": args, "returns": null, "pos": null});
        if let Some(t) = ret {
            j["returns"] = self.name(t);
        }
        let single = self.r.chance(if self.o.sparse { 50 } else { 15 });
        let mut body = if single { vec![] } else { self.suite(self.o.depth, false, ret) };
        if body.is_empty() || (ret.is_some() && body.last().unwrap()["ast_type"] != "Return") {
            body.push(match ret {
                Some(t) => {
                    let e = self.expr(t, self.o.depth);
                    self.n("Return", json!({"value": e}))
                }
                None => self.assign(1),
            });
        }
        j["body"] = body.into();
        j["doc_string"] = Value::Null;
        if self.r.chance(if self.o.long { 50 } else { 15 }) {
            let t = match self.r.below(3) {
                0 => "@notice Does what it says".to_string(),
                1 => "\n    @notice Does what it says\n    @param to receiver\n    ".to_string(),
                _ => if self.o.long { format!("@dev {}", "lorem ipsum dolor ".repeat(self.r.below(20))) } else { "x".into() },
            };
            j["doc_string"] = self.n("DocStr", json!({"value": t}));
        }
        self.locals.truncate(k0);
        self.n("FunctionDef", j)
    }
    /// returns something unusual
    fn xfunction(&mut self, name: &str, decs: Vec<Value>, args: Value, k0: usize) -> Value {
        let mut body = if self.r.chance(40) { vec![] } else { self.suite(self.o.depth, false, None) };
        let ret = match self.r.below(4) {
            0 => {
                let (t, e) = (vec![self.name("uint256"), self.name("bool")], vec![self.expr("uint256", 2), self.expr("bool", 2)]);
                let e = self.n("Tuple", json!({"elements": e}));
                body.push(self.n("Return", json!({"value": e})));
                self.n("Tuple", json!({"elements": t}))
            }
            1 => {
                let e = self.leaf("string");
                body.push(self.n("Return", json!({"value": e})));
                self.sized("String", 100)
            }
            2 => {
                let e = vec![self.expr("uint256", 1), self.expr("uint256", 1)];
                let e = self.n("List", json!({"elements": e}));
                body.push(self.n("Return", json!({"value": e})));
                self.sized("uint256", 2)
            }
            _ => {
                body.push(self.n("Return", json!({"value": null})));
                Value::Null
            }
        };
        let doc = match self.r.below(5) {
            0 => "ends with a \"quote\"",
            1 => "\n    three \"\"\" quotes\n    and a \\ backslash \\n\n    ",
            2 => "back\\slash",
            3 => "\"\"\"",
            _ => "@notice naïve",
        };
        let doc = self.n("DocStr", json!({"value": doc}));
        self.locals.truncate(k0);
        self.n("FunctionDef", json!({"name": name, "decorator_list": decs, "args": args, "returns": ret, "pos": null, "body": body, "doc_string": doc}))
    }
    fn contract(&mut self) -> Value {
        let mut body = vec![];
        if self.o.exotic {
            self.xtop(&mut body);
        }
        if self.r.chance(30) {
            body.push(self.n("ImportFrom", json!({"level": 0, "module": "vyper.interfaces", "name": "ERC20"})));
        }
        if self.r.chance(30) {
            let a = self.args();
            self.locals.clear();
            let v = self.name("view");
            let e = self.n("Expr", json!({"value": v}));
            let r = self.name("uint256");
            let fname = if self.o.clash { "total" } else { "peek" };
            let f = self.n("FunctionDef", json!({"name": fname, "args": a, "returns": r, "decorator_list": [], "body": [e], "doc_string": null}));
            body.push(self.n("InterfaceDef", json!({"name": "Oracle", "body": [f]})));
        }
        {
            let (t, a) = (self.name("who"), self.name("address"));
            let f = self.name("indexed");
            let a = self.n("Call", json!({"func": f, "args": [a], "keywords": []}));
            let m1 = self.n("AnnAssign", json!({"target": t, "annotation": a, "value": null, "simple": 1}));
            let (t, a) = (self.name("amount"), self.name("uint256"));
            let m2 = self.n("AnnAssign", json!({"target": t, "annotation": a, "value": null, "simple": 1}));
            body.push(self.n("EventDef", json!({"name": "Moved", "body": [m1, m2]})));
        }
        if self.r.chance(30) {
            let (t, a) = (self.name("a"), self.name("uint256"));
            let m1 = self.n("AnnAssign", json!({"target": t, "annotation": a, "value": null, "simple": 1}));
            body.push(self.n("StructDef", json!({"name": "Item", "body": [m1]})));
        }
        for (s, t) in VSTATE {
            let (tn, a) = (self.name(s), self.name(t));
            let p = self.r.chance(40);
            body.push(self.n("VariableDecl", json!({"target": tn, "annotation": a, "value": null, "is_public": p, "is_constant": false, "is_immutable": false})));
        }
        {
            let (tn, a, v) = (self.name("LIMIT"), self.name("uint256"), self.int());
            body.push(self.n("VariableDecl", json!({"target": tn, "annotation": a, "value": v, "is_public": false, "is_constant": true, "is_immutable": false})));
            let (k, v) = (self.name("address"), self.name("uint256"));
            let tp = self.n("Tuple", json!({"elements": [k, v]}));
            let ix = self.n("Index", json!({"value": tp}));
            let h = self.name("HashMap");
            let sub = self.n("Subscript", json!({"value": h, "slice": ix}));
            let tn = self.name("balances");
            body.push(self.n("VariableDecl", json!({"target": tn, "annotation": sub, "value": null, "is_public": true, "is_constant": false, "is_immutable": false})));
        }
        if self.o.clash && self.r.chance(50) {
            let n = *self.r.pick(&FNAMES);
            let (tn, a) = (self.name(n), self.name("uint256"));
            let (l, r) = (self.int(), self.int());
            let op = self.op("Add");
            let v = self.n("BinOp", json!({"left": l, "op": op, "right": r}));
            body.push(self.n("VariableDecl", json!({"target": tn, "annotation": a, "value": v, "is_public": false, "is_constant": true, "is_immutable": false})));
        }
        if self.r.chance(40) {
            let f = self.function("__init__");
            body.push(f);
        }
        let k = 1 + self.r.below(self.o.funcs);
        for _ in 0..k {
            let n = self.r.pick(&FNAMES).to_string();
            self.fnames.push(n.clone());
            let f = self.function(&n);
            body.push(f);
        }
        let mut m = self.n("Module", json!({"name": "<unknown>", "body": body, "doc_string": null}));
        if self.r.chance(20) {
            m["doc_string"] = self.n("DocStr", json!({"value": "@title Token"}));
        }
        json!({"contract_name": "a.vy", "ast": m})
    }
}
