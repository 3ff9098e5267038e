//! The published Candid interface (evm_minter.did): its types, and what answers and requests look like to a client that
//! knows only them.
use crate::mon::Mon;
use crate::util::*;
use candid::types::internal::{Field, Label, Type, TypeInner};
use candid::types::TypeEnv;
use candid::types::value::{IDLArgs, IDLField, IDLValue, VariantValue};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::{Mutex, OnceLock};

pub struct Method {
    pub args: Vec<Type>,
    pub rets: Vec<Type>,
    pub query: bool,
}
pub struct Iface {
    pub env: TypeEnv,
    pub methods: BTreeMap<String, Method>,
    pub init: Vec<Type>,
}

struct P {
    t: Vec<String>,
    i: usize,
}
impl P {
    fn peek(&self) -> &str {
        self.t.get(self.i).map_or("", |s| s)
    }
    fn next(&mut self) -> String {
        self.i += 1;
        self.t.get(self.i - 1).cloned().unwrap_or_default()
    }
    fn eat(&mut self, s: &str) -> bool {
        let y = self.peek() == s;
        if y {
            self.i += 1;
        }
        y
    }
    fn want(&mut self, s: &str) {
        let got = self.next();
        assert!(got == s, "evm_minter.did: {s} expected, {got} found near {:?}", &self.t[self.i.saturating_sub(6)..self.i]);
    }
    fn ty(&mut self) -> Type {
        let t = self.next();
        match t.as_str() {
            "opt" => TypeInner::Opt(self.ty()),
            "vec" => TypeInner::Vec(self.ty()),
            "blob" => TypeInner::Vec(TypeInner::Nat8.into()),
            "record" => TypeInner::Record(self.fields(false)),
            "variant" => TypeInner::Variant(self.fields(true)),
            "null" => TypeInner::Null,
            "bool" => TypeInner::Bool,
            "nat" => TypeInner::Nat,
            "int" => TypeInner::Int,
            "nat8" => TypeInner::Nat8,
            "nat16" => TypeInner::Nat16,
            "nat32" => TypeInner::Nat32,
            "nat64" => TypeInner::Nat64,
            "int8" => TypeInner::Int8,
            "int16" => TypeInner::Int16,
            "int32" => TypeInner::Int32,
            "int64" => TypeInner::Int64,
            "float32" => TypeInner::Float32,
            "float64" => TypeInner::Float64,
            "text" => TypeInner::Text,
            "reserved" => TypeInner::Reserved,
            "empty" => TypeInner::Empty,
            "principal" => TypeInner::Principal,
            _ => TypeInner::Var(t),
        }
        .into()
    }
    fn fields(&mut self, variant: bool) -> Vec<Field> {
        let mut v: Vec<Field> = vec![];
        self.want("{");
        let mut k = 0;
        while !self.eat("}") {
            let named = self.t.get(self.i + 1).map_or(false, |s| s == ":");
            let (id, ty) = if named {
                let l = self.next();
                self.want(":");
                (label(&l), self.ty())
            } else if variant {
                (label(&self.next()), TypeInner::Null.into())
            } else {
                (Label::Unnamed(k), self.ty())
            };
            k += 1;
            v.push(Field { id: id.into(), ty });
            if !self.eat(";") {
                self.want("}");
                break;
            }
        }
        v.sort_by_key(|f| f.id.get_id());
        v
    }
    fn tuple(&mut self) -> Vec<Type> {
        let mut v = vec![];
        self.want("(");
        while !self.eat(")") {
            if self.t.get(self.i + 1).map_or(false, |s| s == ":") {
                self.next();
                self.next();
            }
            v.push(self.ty());
            if !self.eat(",") {
                self.want(")");
                break;
            }
        }
        v
    }
}
fn label(s: &str) -> Label {
    match s.parse::<u32>() {
        Ok(n) => Label::Id(n),
        _ => Label::Named(s.trim_matches('"').to_string()),
    }
}
fn tokens(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            ' ' | '\n' | '\t' | '\r' => i += 1,
            '/' if c.get(i + 1) == Some(&'/') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if c.get(i + 1) == Some(&'*') => {
                while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                    i += 1;
                }
                i += 2;
            }
            '"' => {
                let k = i;
                i += 1;
                while i < c.len() && c[i] != '"' {
                    i += 1;
                }
                i += 1;
                v.push(c[k..i].iter().collect());
            }
            '-' if c.get(i + 1) == Some(&'>') => {
                v.push("->".into());
                i += 2;
            }
            x if x.is_alphanumeric() || x == '_' => {
                let k = i;
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
                v.push(c[k..i].iter().collect());
            }
            x => {
                v.push(x.to_string());
                i += 1;
            }
        }
    }
    v
}
pub fn parse(text: &str) -> Iface {
    let mut p = P { t: tokens(text), i: 0 };
    let mut r = Iface { env: TypeEnv::new(), methods: BTreeMap::new(), init: vec![] };
    while p.i < p.t.len() {
        if p.eat("type") {
            let n = p.next();
            p.want("=");
            let t = p.ty();
            r.env.0.insert(n, t);
        } else {
            p.want("service");
            if p.peek() != ":" {
                p.next();
            }
            p.want(":");
            if p.peek() == "(" {
                r.init = p.tuple();
                p.want("->");
            }
            p.want("{");
            while !p.eat("}") {
                let n = p.next();
                p.want(":");
                let args = p.tuple();
                p.want("->");
                let rets = p.tuple();
                let query = p.eat("query") | p.eat("composite_query");
                p.eat("oneway");
                r.methods.insert(n.trim_matches('"').into(), Method { args, rets, query });
                if !p.eat(";") {
                    p.want("}");
                    break;
                }
            }
        }
        p.eat(";");
    }
    r
}

pub fn get() -> Rc<Iface> {
    static TEXT: OnceLock<String> = OnceLock::new();
    thread_local!(static I: Rc<Iface> = Rc::new(parse(TEXT.get_or_init(|| std::fs::read_to_string("/repo/evm_minter.did").expect("evm_minter.did")))));
    I.with(|i| i.clone())
}

/// What of `a` a client that reads it as `b` does not see, or what `b` declares and `a` does not have.
pub fn lost(a: &IDLValue, b: &IDLValue, at: &str) -> Option<String> {
    match (a, b) {
        (IDLValue::Record(x), IDLValue::Record(y)) => y.iter().find_map(|f| match x.iter().find(|g| g.id.get_id() == f.id.get_id()) {
            Some(g) => lost(&g.val, &f.val, &format!("{at}.{}", f.id)),
            None => Some(format!("{at}.{} is not there", f.id)),
        }),
        (IDLValue::Variant(x), IDLValue::Variant(y)) => {
            if x.0.id.get_id() == y.0.id.get_id() {
                lost(&x.0.val, &y.0.val, &format!("{at}.{}", y.0.id))
            } else {
                Some(format!("{at}: another variant, {}", y.0.id))
            }
        }
        (IDLValue::Opt(x), IDLValue::Opt(y)) => lost(x, y, at),
        (IDLValue::None | IDLValue::Null | IDLValue::Reserved, IDLValue::None | IDLValue::Null | IDLValue::Reserved) => None,
        (_, IDLValue::None | IDLValue::Null | IDLValue::Reserved) => Some(format!("{at}: {a} is read as nothing")),
        (x, IDLValue::Opt(y)) => lost(x, y, at),
        (IDLValue::Vec(x), IDLValue::Vec(y)) => {
            if x.len() != y.len() {
                return Some(format!("{at}: {} for {} elements", y.len(), x.len()));
            }
            x.iter().zip(y).find_map(|(p, q)| lost(p, q, at))
        }
        (IDLValue::Vec(x), IDLValue::Blob(y)) | (IDLValue::Blob(y), IDLValue::Vec(x)) if x.is_empty() && y.is_empty() => None,
        _ => (a != b && a.to_string() != b.to_string()).then(|| format!("{at}: {a} is read as {b}")),
    }
}
/// The values of a message as its declared types show them.
fn read(bytes: &[u8], types: &[Type]) -> Result<IDLArgs, String> {
    let i = get();
    let e = &i.env;
    let own = IDLArgs::from_bytes(bytes).map_err(|e| format!("not Candid: {e}"))?;
    let seen = IDLArgs::from_bytes_with_types(bytes, e, types).map_err(|e| format!("not of the declared type: {e}"))?;
    if own.args.len() < types.len() {
        return Err(format!("{} values, {} declared", own.args.len(), types.len()));
    }
    match own.args.iter().zip(&seen.args).enumerate().find_map(|(i, (a, b))| lost(a, b, &format!("{i}"))) {
        Some(x) => Err(x),
        None => Ok(seen),
    }
}

// By workload.
static FOUND: Mutex<BTreeMap<String, Mon>> = Mutex::new(BTreeMap::new());
/// From now on requests are sent as the declared types write them, and answers are read as they do.
pub fn watch() {
    get();
    let _ = crate::canister::WATCH.set((request, answer));
}
/// What was seen in one workload.
pub fn take(label: &str) -> Mon {
    FOUND.lock().unwrap().remove(label).unwrap_or_default()
}
fn ck(ok: bool, key: &str, method: &str, msg: impl FnOnce() -> String) {
    let label = ic_host::with(|h| h.label.clone());
    let mut f = FOUND.lock().unwrap();
    let m = f.entry(label).or_default();
    m.stat(&format!("{key}: {method}"));
    m.ck(ok, &["C28"], key, msg);
}
fn request(full: &str, arg: &[u8], exists: bool) -> Option<Vec<u8>> {
    let i = get();
    let (kind, name) = full.split_once('.').unwrap_or((full, ""));
    let mut types = match kind {
        "canister_init" | "canister_post_upgrade" => i.init.clone(),
        "canister_query" | "canister_update" => match i.methods.get(name) {
            Some(m) => {
                ck(exists, "every declared method is there, as the kind it is declared to be", full, || full.into());
                m.args.clone()
            }
            None => return None,
        },
        _ => return None,
    };
    if kind == "canister_post_upgrade" {
        // an upgrade may come without argument
        if IDLArgs::from_bytes(arg).map_or(true, |a| matches!(a.args.first(), None | Some(IDLValue::None | IDLValue::Null))) {
            return None;
        }
        types = vec![TypeInner::Opt(types[0].clone()).into()];
    }
    let r = read(arg, &types);
    let e = r.as_ref().err().cloned().unwrap_or_default();
    ck(r.is_ok(), "what the canister understands can be written with the declared types", full, || format!("{full}: {e}; {}", hex::encode(&arg[..arg.len().min(300)])));
    let mut v = r.ok()?;
    if kind == "canister_post_upgrade" {
        if let Some(IDLValue::Opt(x)) = v.args.first().cloned() {
            v.args[0] = *x;
            types = i.init.clone();
        }
    }
    v.to_bytes_with_types(&i.env, &types).ok()
}
fn answer(full: &str, bytes: &[u8]) {
    let name = full.split_once('.').map_or(full, |x| x.1);
    let i = get();
    let Some(m) = i.methods.get(name) else { return };
    let r = read(bytes, &m.rets);
    let e = r.err();
    ck(e.is_none(), "every answer is what the interface declares", full, || format!("{full}: {}; {}", e.unwrap_or_default(), hex::encode(&bytes[..bytes.len().min(300)])));
}

/// Any value of a declared type, as a request may hold it.
pub fn any(t: &Type, rng: &mut Rng) -> IDLValue {
    let i = get();
    let t = i.env.trace_type(t).unwrap();
    let nat = |rng: &mut Rng| {
        let b = rng.below(300);
        let small = rng.below(40);
        if rng.pm(300) {
            n(small)
        } else {
            rng.big(b)
        }
    };
    match t.as_ref() {
        TypeInner::Bool => IDLValue::Bool(rng.pm(500)),
        TypeInner::Nat => IDLValue::Nat(candid::Nat(nat(rng))),
        TypeInner::Int => IDLValue::Int(candid::Int(nat(rng).into())),
        TypeInner::Nat8 => IDLValue::Nat8(rng.next() as u8),
        TypeInner::Nat16 => IDLValue::Nat16(rng.next() as u16),
        TypeInner::Nat32 => IDLValue::Nat32(rng.next() as u32),
        TypeInner::Nat64 => {
            let k = rng.below(64) as u32;
            IDLValue::Nat64(rng.next() >> k)
        }
        TypeInner::Text => {
            let k = rng.below(60) as usize;
            IDLValue::Text(match rng.below(3) {
                0 => h0x(&rng.bytes::<20>()),
                1 => String::from_utf8_lossy(&rng.vec(k)).into_owned(),
                _ => "icETH".into(),
            })
        }
        TypeInner::Principal => {
            let k = rng.below(30) as usize;
            IDLValue::Principal(candid::Principal::from_slice(&rng.vec(k)))
        }
        TypeInner::Opt(x) => {
            if rng.pm(400) {
                IDLValue::None
            } else {
                IDLValue::Opt(Box::new(any(x, rng)))
            }
        }
        TypeInner::Vec(x) => {
            let k = rng.below(40) as usize;
            if matches!(x.as_ref(), TypeInner::Nat8) {
                // the blobs of requests are subaccounts
                return IDLValue::Blob(rng.vec(32));
            }
            IDLValue::Vec((0..k).map(|_| any(x, rng)).collect())
        }
        TypeInner::Record(f) => IDLValue::Record(f.iter().map(|f| IDLField { id: (*f.id).clone(), val: any(&f.ty, rng) }).collect()),
        TypeInner::Variant(f) => {
            let k = rng.below(f.len() as u64);
            let f = &f[k as usize];
            IDLValue::Variant(VariantValue(Box::new(IDLField { id: (*f.id).clone(), val: any(&f.ty, rng) }), k))
        }
        _ => IDLValue::Null,
    }
}
pub fn request_of(types: &[Type], rng: &mut Rng) -> Vec<u8> {
    let a: Vec<IDLValue> = types.iter().map(|t| any(t, rng)).collect();
    IDLArgs::new(&a).to_bytes_with_types(&get().env, types).unwrap()
}
