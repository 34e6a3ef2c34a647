//! Tokens as the simulation knows them: every field, the exact text, and whether the signature is good - by
//! construction, not by asking the library. Also the harness's own JWT encoder ("another implementation").
use crate::ctx::{chance, draw, pick};
use crate::keys::Ident;
use crate::model::{doc_map, DocCap};
use base64::engine::general_purpose::URL_SAFE_NO_PAD;
use base64::Engine;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use ucan::Ucan;

#[derive(Clone, Debug)]
pub struct Tok {
    pub iss: String,
    pub aud: String,
    pub nbf: Option<u64>,
    pub exp: Option<u64>,
    pub caps: Vec<DocCap>,
    /// None: no `prf` field
    pub prf: Option<Vec<String>>,
    pub nnc: Option<String>,
    pub fct: Option<Map<String, Value>>,
    pub ucv: String,
    pub alg: String,
    pub text: String,
    pub signed: Vec<u8>,
    pub sig: Vec<u8>,
    pub sig_ok: bool,
    /// false: the text does not parse as a token
    pub parse_ok: bool,
}

/// How a JSON text is laid out.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Layout {
    /// sorted keys, no spaces: what the library itself writes
    Canonical,
    Reversed,
    Spaced,
    ReversedSpaced,
    Shuffled,
}
pub fn gen_layout() -> Layout {
    match draw(5) {
        0 => Layout::Canonical,
        1 => Layout::Reversed,
        2 => Layout::Spaced,
        3 => Layout::ReversedSpaced,
        _ => Layout::Shuffled,
    }
}

/// DAG-JSON orders map keys by length, then bytes? The library's encoder decides for its own tokens; a foreign
/// implementation may use any order, which is what this does.
pub fn write_json(v: &Value, l: Layout, out: &mut String) {
    let sp = matches!(l, Layout::Spaced | Layout::ReversedSpaced);
    match v {
        Value::Object(m) => {
            out.push('{');
            let mut ks: Vec<&String> = m.keys().collect();
            match l {
                Layout::Reversed | Layout::ReversedSpaced => ks.reverse(),
                Layout::Shuffled => {
                    for i in (1..ks.len()).rev() {
                        ks.swap(i, draw(i as u64 + 1) as usize);
                    }
                }
                _ => {}
            }
            for (i, k) in ks.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                if sp {
                    out.push_str("\n  ");
                }
                out.push_str(&Value::String((*k).clone()).to_string());
                out.push(':');
                if sp {
                    out.push(' ');
                }
                write_json(&m[*k], l, out);
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    if sp {
                        out.push(' ');
                    }
                }
                write_json(x, l, out);
            }
            out.push(']');
        }
        o => out.push_str(&o.to_string()),
    }
}

impl Tok {
    pub fn payload_json(&self) -> Value {
        let mut m = Map::new();
        m.insert("ucv".into(), json!(self.ucv));
        m.insert("iss".into(), json!(self.iss));
        m.insert("aud".into(), json!(self.aud));
        m.insert("exp".into(), json!(self.exp));
        if let Some(n) = self.nbf {
            m.insert("nbf".into(), json!(n));
        }
        if let Some(n) = &self.nnc {
            m.insert("nnc".into(), json!(n));
        }
        m.insert("cap".into(), json!(doc_map(&self.caps)));
        if let Some(f) = &self.fct {
            m.insert("fct".into(), Value::Object(f.clone()));
        }
        if let Some(p) = &self.prf {
            m.insert("prf".into(), json!(p));
        }
        Value::Object(m)
    }
    /// Encode header and payload in the given layout, and sign with `key` (or leave `sig` for the caller to set).
    pub fn seal(&mut self, l: Layout, key: &Ident) {
        let mut h = String::new();
        write_json(&json!({"alg": self.alg, "typ": "JWT"}), l, &mut h);
        let mut p = String::new();
        write_json(&self.payload_json(), l, &mut p);
        self.signed = format!("{}.{}", URL_SAFE_NO_PAD.encode(h), URL_SAFE_NO_PAD.encode(p)).into_bytes();
        self.sig = key.sign_raw(&self.signed);
        self.sig_ok = key.did == self.iss;
        self.parse_ok = true;
        self.retext();
    }
    pub fn retext(&mut self) {
        self.text = format!("{}.{}", String::from_utf8(self.signed.clone()).unwrap(), URL_SAFE_NO_PAD.encode(&self.sig));
    }
    /// The model of a token the library has issued, taken from its text with the harness's own reader.
    pub fn read_back(text: &str, caps: Vec<DocCap>) -> Option<Tok> {
        let parts: Vec<&str> = text.split('.').collect();
        if parts.len() != 3 {
            return None;
        }
        let h: Value = serde_json::from_slice(&URL_SAFE_NO_PAD.decode(parts[0]).ok()?).ok()?;
        let p: Value = serde_json::from_slice(&URL_SAFE_NO_PAD.decode(parts[1]).ok()?).ok()?;
        let sig = URL_SAFE_NO_PAD.decode(parts[2]).ok()?;
        let s = |k: &str| p.get(k).and_then(|x| x.as_str()).map(String::from);
        Some(Tok {
            iss: s("iss")?,
            aud: s("aud")?,
            nbf: p.get("nbf").and_then(|x| x.as_u64()),
            exp: p.get("exp").and_then(|x| x.as_u64()),
            caps,
            prf: match p.get("prf") {
                None => None,
                Some(x) => Some(x.as_array()?.iter().map(|c| c.as_str().unwrap_or("").to_string()).collect()),
            },
            nnc: s("nnc"),
            fct: p.get("fct").and_then(|x| x.as_object()).cloned(),
            ucv: s("ucv")?,
            alg: h.get("alg")?.as_str()?.to_string(),
            text: text.to_string(),
            signed: format!("{}.{}", parts[0], parts[1]).into_bytes(),
            sig,
            sig_ok: true,
            parse_ok: true,
        })
    }
    /// Every difference between a token object of the library and this token.
    pub fn diff(&self, u: &Ucan) -> Option<String> {
        let d = |n: &str, a: String, b: String| if a == b { None } else { Some(format!("{n}: {a} instead of {b}")) };
        let caps: BTreeMap<String, BTreeMap<String, Vec<Value>>> = (**u.capabilities()).clone();
        None.or_else(|| d("issuer", u.issuer().into(), self.iss.clone()))
            .or_else(|| d("audience", u.audience().into(), self.aud.clone()))
            .or_else(|| d("not-before", format!("{:?}", u.not_before()), format!("{:?}", self.nbf)))
            .or_else(|| d("expiry", format!("{:?}", u.expires_at()), format!("{:?}", self.exp)))
            .or_else(|| d("proofs", format!("{:?}", u.proofs()), format!("{:?}", self.prf)))
            .or_else(|| d("nonce", format!("{:?}", u.nonce()), format!("{:?}", self.nnc)))
            .or_else(|| d("algorithm", u.algorithm().into(), self.alg.clone()))
            .or_else(|| d("version", u.version().into(), self.ucv.clone()))
            .or_else(|| d("capabilities", json!(caps).to_string(), json!(doc_map(&self.caps)).to_string()))
            .or_else(|| d("facts", json!(u.facts()).to_string(), json!(self.fct).to_string()))
            .or_else(|| d("signed data", show_bytes(u.signed_data()), show_bytes(&self.signed)))
            .or_else(|| d("signature", show_bytes(u.signature()), show_bytes(&self.sig)))
    }
}
pub fn show_bytes(b: &[u8]) -> String {
    URL_SAFE_NO_PAD.encode(b)
}
pub fn gen_facts() -> Option<Map<String, Value>> {
    if !chance(1, 4) {
        return None;
    }
    let mut m = Map::new();
    for _ in 0..1 + draw(2) {
        let k = pick(&["a", "zz/challenge", "é", "b c", "aa", "", "B", "\"", "a\u{0}", "iss"]).to_string();
        let v = match draw(20) {
            0 => json!("v"),
            1 => json!({"foo": "bar", "baz": true}),
            2 => json!([1, 2, {"x": null}]),
            3 => json!(-5),
            4 => json!("\u{1F600} \"quoted\" \\ \n"),
            5 => json!({"zz": {"b": 1, "aa": 2}, "c": []}),
            6 => json!(u64::MAX),
            7 => json!(i64::MIN),
            8 => json!((1u64 << 53) + 1),
            9 => json!({"": "", "b": {}, "aaa": [], "A": [[], [{}]], "é": 1}),
            10 => json!("\u{0}\u{7f}\u{2028}\u{e000}\r\t/<&>"),
            11 => json!("eyJhbGciOiJub25lIn0.e30."),
            12 => json!("bafkreihdwdcefgh4dqkjv67uzcmw7ojee6xedzdetojuzjevtenxquvyku"),
            13 => {
                let mut x = json!(1);
                for i in 0..20 {
                    x = if i % 2 == 0 { json!([x]) } else { json!({ "d": x }) };
                }
                x
            }
            14 => json!("x".repeat(300)),
            15 => json!(false),
            16 => json!(""),
            17 => json!(*pick(&[1.5f64, -0.25, 1e300, 1e21, 0.1])),
            18 => json!(*pick(&[1.0f64, -0.0, 1e16])),
            _ => json!([[1, 2], [2, 1], true, "1", 1]),
        };
        m.insert(k, v);
    }
    Some(m)
}
