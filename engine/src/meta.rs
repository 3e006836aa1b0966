//! Token metadata: contents of the two kinds of records, what the instructions of the owning programs
//! do to them, the scenarios for the two sync instructions and their assertions.
use crate::cpi::disc;
use crate::expr::*;
use crate::mem::*;
use crate::props::{frame, key, post, pre, spec_mint, spec_under, Out};
use crate::scen::*;
use crate::tok;
use crate::tok::*;
use crate::vm::*;
use crate::world::*;
use std::rc::Rc;

pub type S = Vec<E>;

// ---------------------------------------------------------------- contents

#[derive(Clone)]
pub struct TokenMd {
    pub ua: Key,
    pub mint: Key,
    pub name: S,
    pub symbol: S,
    pub uri: S,
    pub extra: Vec<(S, S)>,
}
/// the part of a Metaplex record an update replaces
#[derive(Clone)]
pub struct DataV2 {
    pub name: S,
    pub symbol: S,
    pub uri: S,
    pub fee: E,
    pub creators: Option<Vec<(Key, E, E)>>,
    pub collection: Option<(E, Key)>,
    pub uses: Option<(E, E, E)>,
}
#[derive(Clone)]
pub struct MplRec {
    pub ua: Key,
    pub mint: Key,
    pub data: DataV2,
    pub primary: E,
    pub mutable: E,
    pub nonce: Option<E>,
    pub standard: Option<E>,
    /// serialized remainder: collection details, programmable config
    pub details: Option<(E, E)>,
    pub rules: Option<Option<Key>>,
}
#[derive(Clone)]
pub enum MdVal {
    T22(TokenMd),
    Mpl(MplRec),
    /// paid for a record: lamports unmodelled
    Payer,
}

pub struct Rd<'a> {
    pub d: &'a [E],
    pub o: usize,
}
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [E]> {
        let r = self.d.get(self.o..self.o + n)?;
        self.o += n;
        Some(r)
    }
    pub fn c(&mut self, n: usize) -> Option<u64> {
        as_const(from_bytes(self.take(n)?)).map(|v| v as u64)
    }
    pub fn key(&mut self) -> Option<Key> {
        Some(key_of(self.take(32)?))
    }
    pub fn s(&mut self) -> Option<S> {
        let n = self.c(4)? as usize;
        Some(self.take(n)?.to_vec())
    }
    pub fn num(&mut self, n: usize) -> Option<E> {
        Some(from_bytes(self.take(n)?))
    }
    pub fn some(&mut self) -> Option<bool> {
        match self.c(1)? {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
    pub fn token_md(&mut self) -> Option<TokenMd> {
        let (ua, mint) = (self.key()?, self.key()?);
        let (name, symbol, uri) = (self.s()?, self.s()?, self.s()?);
        let n = self.c(4)?;
        let mut extra = vec![];
        for _ in 0..n {
            extra.push((self.s()?, self.s()?));
        }
        Some(TokenMd { ua, mint, name, symbol, uri, extra })
    }
    fn creators(&mut self) -> Option<Option<Vec<(Key, E, E)>>> {
        if !self.some()? {
            return Some(None);
        }
        let n = self.c(4)?;
        let mut v = vec![];
        for _ in 0..n {
            v.push((self.key()?, self.num(1)?, self.num(1)?));
        }
        Some(Some(v))
    }
    fn collection(&mut self) -> Option<Option<(E, Key)>> {
        Some(if self.some()? { Some((self.num(1)?, self.key()?)) } else { None })
    }
    fn uses(&mut self) -> Option<Option<(E, E, E)>> {
        Some(if self.some()? { Some((self.num(1)?, self.num(8)?, self.num(8)?)) } else { None })
    }
    pub fn data_v2(&mut self) -> Option<DataV2> {
        let (name, symbol, uri) = (self.s()?, self.s()?, self.s()?);
        let fee = self.num(2)?;
        let creators = self.creators()?;
        let collection = self.collection()?;
        let uses = self.uses()?;
        Some(DataV2 { name, symbol, uri, fee, creators, collection, uses })
    }
    pub fn mpl_rec(&mut self) -> Option<MplRec> {
        self.take(1)?;
        let (ua, mint) = (self.key()?, self.key()?);
        let (name, symbol, uri) = (self.s()?, self.s()?, self.s()?);
        let fee = self.num(2)?;
        let creators = self.creators()?;
        let (primary, mutable) = (self.num(1)?, self.num(1)?);
        let nonce = if self.some()? { Some(self.num(1)?) } else { None };
        let standard = if self.some()? { Some(self.num(1)?) } else { None };
        let collection = self.collection()?;
        let uses = self.uses()?;
        let details = if self.some()? { Some((self.num(1)?, self.num(8)?)) } else { None };
        let rules = if self.some()? {
            self.take(1)?;
            Some(if self.some()? { Some(self.key()?) } else { None })
        } else {
            None
        };
        Some(MplRec { ua, mint, data: DataV2 { name, symbol, uri, fee, creators, collection, uses }, primary, mutable, nonce, standard, details, rules })
    }
}

/// the metadata entry of a mint with extensions
pub fn md_of_mint(d: &[E]) -> Option<TokenMd> {
    let t = tlv(d)?;
    let (_, o, l) = t.iter().find(|x| x.0 == ext::TOKEN_METADATA)?;
    Rd { d: &d[*o..*o + *l], o: 0 }.token_md()
}
/// metadata an account holds now
pub fn token_md(a: &AcctSt) -> Option<TokenMd> {
    match a.md.as_deref() {
        Some(MdVal::T22(m)) => Some(m.clone()),
        Some(_) => None,
        None => md_of_mint(&a.data),
    }
}
pub fn mpl_rec(a: &AcctSt) -> Option<MplRec> {
    match a.md.as_deref() {
        Some(MdVal::Mpl(m)) => Some(m.clone()),
        Some(_) => None,
        None => Rd { d: &a.data, o: 0 }.mpl_rec(),
    }
}

/// equal as text, a tail of zero bytes not counting
pub fn text_eq(a: &[E], b: &[E]) -> E {
    let n = a.len().max(b.len());
    let at = |v: &[E], i: usize| v.get(i).copied().unwrap_or_else(|| k8(0));
    all(&(0..n).map(|i| eq(at(a, i), at(b, i))).collect::<Vec<_>>())
}
fn s_eq(a: &[E], b: &[E]) -> E {
    if a.len() != b.len() {
        return fls();
    }
    bytes_eq(a, b)
}

// ---------------------------------------------------------------- what the owning programs do

/// Token-2022: initialize / update field / remove key
pub fn token_2022_ix(e: &mut Engine, st: &mut State, d: &[u8; 8], views: &[View], data: &[E]) -> R<Option<tok::Effect>> {
    let kind = ["initialize", "update_field", "remove_key", "update_authority"].iter().position(|k| *d == disc(k));
    let Some(kind) = kind else { return Ok(None) };
    let name = ["md_initialize", "md_update", "md_remove", "md_authority"][kind];
    let bad = || Stop::End(Outcome::CpiFail("metadata instruction".into()));
    let refuse = || Ok(Some(tok::Effect { ok: fls(), new: vec![], kind: name.to_string() }));
    let mut r = Rd { d: data, o: 8 };
    let string = |e: &mut Engine, st: &mut State, r: &mut Rd| -> R<S> {
        let n = r.num(4).ok_or_else(bad)?;
        let n = e.concretize(st, Val::of(zext(64, n)), "string length")? as usize;
        Ok(r.take(n).ok_or_else(bad)?.to_vec())
    };
    if views.len() < 2 {
        return refuse();
    }
    let m = &views[0];
    let mut ok = vec![m.writable, key_eq(&m.st.owner, &kk(ids::t22()))];
    let mut new = m.st.clone();
    new.opaque = true;
    let cur = token_md(m.st);
    let md = match kind {
        0 => {
            let (name, symbol, uri) = (string(e, st, &mut r)?, string(e, st, &mut r)?, string(e, st, &mut r)?);
            if views.len() < 4 || cur.is_some() || views[2].idx != m.idx || m.st.data.len() < 166 {
                return refuse();
            }
            ok.push(mint_ok(Prog::T22, &m.st.data));
            ok.push(views[3].signer);
            ok.push(opt_some(&m.st.data, M_AUTH));
            ok.push(bytes_eq(&m.st.data[4..36], &views[3].key));
            if ext_at(&m.st.data, ext::METADATA_POINTER).is_none() {
                return refuse();
            }
            TokenMd { ua: views[1].key, mint: m.key, name, symbol, uri, extra: vec![] }
        }
        _ => {
            let Some(mut md) = cur else { return refuse() };
            ok.push(mint_ok(Prog::T22, &m.st.data));
            ok.push(views[1].signer);
            ok.push(key_eq(&md.ua, &views[1].key));
            ok.push(not(key_eq(&md.ua, &kk([0; 32]))));
            if kind == 3 {
                md.ua = r.key().ok_or_else(bad)?;
                new.md = Some(Rc::new(MdVal::T22(md)));
                return Ok(Some(tok::Effect { ok: all(&ok), new: vec![(m.idx, new)], kind: name.into() }));
            }
            let f = r.num(1).ok_or_else(bad)?;
            if kind == 1 {
                let f = e.concretize(st, Val::of(zext(64, f)), "field")?;
                let k = if f == 3 { string(e, st, &mut r)? } else { vec![] };
                let v = string(e, st, &mut r)?;
                match f {
                    0 => md.name = v,
                    1 => md.symbol = v,
                    2 => md.uri = v,
                    3 => {
                        let mut hit = None;
                        for (i, x) in md.extra.iter().enumerate() {
                            let c = s_eq(&x.0, &k);
                            if e.decide(st, c)? {
                                hit = Some(i);
                                break;
                            }
                        }
                        match hit {
                            Some(i) => md.extra[i].1 = v,
                            None => md.extra.push((k, v)),
                        }
                    }
                    _ => return refuse(),
                }
            } else {
                let idem = not(eq(f, k8(0)));
                let k = string(e, st, &mut r)?;
                let mut hit = None;
                for (i, x) in md.extra.iter().enumerate() {
                    let c = s_eq(&x.0, &k);
                    if e.decide(st, c)? {
                        hit = Some(i);
                        break;
                    }
                }
                match hit {
                    Some(i) => {
                        md.extra.remove(i);
                    }
                    None => ok.push(idem),
                }
            }
            md
        }
    };
    new.md = Some(Rc::new(MdVal::T22(md)));
    Ok(Some(tok::Effect { ok: all(&ok), new: vec![(m.idx, new)], kind: name.into() }))
}

/// what Metaplex accepts as content
fn mpl_content_ok(d: &DataV2, old: Option<&DataV2>) -> E {
    let mut v = vec![
        k1(d.name.len() <= 32 && d.symbol.len() <= 10 && d.uri.len() <= 200),
        ule(d.fee, konst(16, 10000)),
    ];
    let one = |x: E| eq(x, k8(1));
    let oldc: &[(Key, E, E)] = old.and_then(|o| o.creators.as_deref()).unwrap_or(&[]);
    match &d.creators {
        None => v.extend(oldc.iter().map(|c| not(one(c.1)))),
        Some(cs) => {
            v.push(k1(!cs.is_empty() && cs.len() <= 5));
            let mut sum = konst(16, 0);
            for (i, (k, ver, share)) in cs.iter().enumerate() {
                sum = add(sum, zext(16, *share));
                for c in &cs[..i] {
                    v.push(not(key_eq(k, &c.0)));
                }
                let was = any(&oldc.iter().map(|c| and(key_eq(&c.0, k), one(c.1))).collect::<Vec<_>>());
                v.push(eq(one(*ver), was));
            }
            v.push(eq(sum, konst(16, 100)));
            for c in oldc {
                v.push(implies(one(c.1), any(&cs.iter().map(|x| key_eq(&x.0, &c.0)).collect::<Vec<_>>())));
            }
        }
    }
    let oldcol = old.and_then(|o| o.collection.as_ref());
    match (&d.collection, oldcol) {
        (Some(c), Some(o)) => v.push(implies(or(one(c.0), one(o.0)), all(&[one(c.0), one(o.0), key_eq(&c.1, &o.1)]))),
        (Some(c), None) => v.push(not(one(c.0))),
        (None, Some(o)) => v.push(not(one(o.0))),
        _ => {}
    }
    if let Some((m, rem, tot)) = &d.uses {
        let (single, multi) = (eq(*m, k8(2)), eq(*m, k8(1)));
        v.push(implies(single, and(eq(*rem, k64(1)), eq(*tot, k64(1)))));
        v.push(implies(multi, and(ule(k64(2), *tot), ule(*rem, *tot))));
        if let Some((om, orem, otot)) = old.and_then(|o| o.uses.as_ref()) {
            // once used, the terms are fixed
            let same = all(&[eq(*m, *om), eq(*rem, *orem), eq(*tot, *otot)]);
            v.push(or(eq(*otot, *orem), same));
        }
    }
    all(&v)
}

/// Metaplex: create a record (v3) / update one (v2)
pub fn metaplex_ix(tag: u8, views: &[View], data: &[E]) -> R<tok::Effect> {
    let incon = |w: &str| Stop::End(Outcome::Incon(format!("metaplex instruction: {w}")));
    match tag {
        33 if views.len() >= 6 => {
            // metadata, mint, mint authority (signer), payer (signer, writable), update authority, system, rent
            let refuse = Ok(tok::Effect { ok: fls(), new: vec![], kind: "mpl_create".into() });
            let (m, mint) = (&views[0], &views[1]);
            let mut r = Rd { d: data, o: 1 };
            let d = r.data_v2().ok_or_else(|| incon("create data"))?;
            let mutable = r.num(1).ok_or_else(|| incon("create flag"))?;
            let md = &mint.st.data;
            if !m.st.data.is_empty() || md.len() < 82 || m.idx == views[3].idx {
                return refuse;
            }
            let mut want = cbytes(b"metadata");
            want.extend(kk(ids::mpl()));
            want.extend(mint.key);
            let ok = vec![
                views[2].signer,
                views[3].signer,
                m.writable,
                views[3].writable,
                opt_some(md, M_AUTH),
                bytes_eq(&md[4..36], &views[2].key),
                or(key_eq(&mint.st.owner, &kk(ids::spl())), key_eq(&mint.st.owner, &kk(ids::t22()))),
                key_eq(&m.st.owner, &kk(ids::system())),
                k1(views[3].st.data.is_empty()),
                key_eq(&views[3].st.owner, &kk(ids::system())),
                mpl_content_ok(&d, None),
            ];
            let mut n = m.st.clone();
            n.owner = kk(ids::mpl());
            n.opaque = true;
            n.data = Rc::new(zeros(1));
            n.md = Some(Rc::new(MdVal::Mpl(MplRec {
                ua: views[4].key,
                mint: mint.key,
                data: d,
                primary: k8(0),
                mutable,
                nonce: None,
                standard: None,
                details: None,
                rules: None,
            })));
            let mut p = views[3].st.clone();
            p.opaque = true;
            p.md = Some(Rc::new(MdVal::Payer));
            Ok(tok::Effect { ok: all(&ok), new: vec![(m.idx, n), (views[3].idx, p)], kind: "mpl_create".into() })
        }
        15 if views.len() >= 2 => {
            // metadata, update authority (signer)
            let m = &views[0];
            let refuse = Ok(tok::Effect { ok: fls(), new: vec![], kind: "mpl_update".into() });
            let mut r = Rd { d: data, o: 1 };
            let d = if r.some().ok_or_else(|| incon("update"))? { Some(r.data_v2().ok_or_else(|| incon("update data"))?) } else { None };
            let ua = if r.some().ok_or_else(|| incon("update"))? { Some(r.key().ok_or_else(|| incon("update"))?) } else { None };
            let prim = if r.some().ok_or_else(|| incon("update"))? { r.num(1) } else { None };
            let mutable = if r.some().ok_or_else(|| incon("update"))? { r.num(1) } else { None };
            let Some(mut rec) = mpl_rec(m.st) else { return refuse };
            let mut ok = vec![
                views[1].signer,
                m.writable,
                key_eq(&m.st.owner, &kk(ids::mpl())),
                key_eq(&rec.ua, &views[1].key),
                eq(rec.mutable, k8(1)),
                d.as_ref().map_or(tru(), |d| mpl_content_ok(d, Some(&rec.data))),
            ];
            if m.st.md.is_none() {
                ok.push(eq(m.st.data[0], k8(4)));
            }
            if let Some(d) = d {
                rec.data = d;
            }
            if let Some(k) = ua {
                rec.ua = k;
            }
            if let Some(p) = prim {
                // can only be switched on
                ok.push(or(eq(p, rec.primary), eq(p, k8(1))));
                rec.primary = p;
            }
            if let Some(p) = mutable {
                ok.push(or(eq(p, rec.mutable), eq(p, k8(0))));
                rec.mutable = p;
            }
            let mut n = m.st.clone();
            n.opaque = true;
            n.md = Some(Rc::new(MdVal::Mpl(rec)));
            Ok(tok::Effect { ok: all(&ok), new: vec![(m.idx, n)], kind: "mpl_update".into() })
        }
        _ => Err(incon(&format!("tag {tag}"))),
    }
}

// ---------------------------------------------------------------- expected values

#[derive(Clone)]
pub enum Piece {
    L(String),
    /// decimal
    D(E),
    /// true / false
    B(E),
    /// name of an enumeration value
    N(E, &'static [&'static str]),
}
/// the bytes are what the pieces spell
pub fn spells(b: &[E], p: &[Piece]) -> E {
    let Some(first) = p.first() else { return k1(b.is_empty()) };
    let lit = |s: &str| -> E {
        if b.len() < s.len() {
            return fls();
        }
        bytes_eq(&b[..s.len()], &cbytes(s.as_bytes()))
    };
    match first {
        Piece::L(s) => {
            let c = lit(s);
            if is_false(c) {
                return fls();
            }
            and(c, spells(&b[s.len()..], &p[1..]))
        }
        Piece::B(e) => {
            let on = not(eq(*e, konst(width(*e), 0)));
            let mut alts = vec![];
            for (s, c) in [("true", on), ("false", not(on))] {
                let l = lit(s);
                if !is_false(l) {
                    alts.push(all(&[c, l, spells(&b[s.len()..], &p[1..])]));
                }
            }
            any(&alts)
        }
        Piece::N(e, names) => {
            let mut alts = vec![];
            for (i, s) in names.iter().enumerate() {
                let l = lit(s);
                if !is_false(l) {
                    alts.push(all(&[eq(*e, konst(width(*e), i as u128)), l, spells(&b[s.len()..], &p[1..])]));
                }
            }
            any(&alts)
        }
        Piece::D(e) => {
            let mut alts = vec![];
            let max = match width(*e) {
                8 => 3,
                16 => 5,
                32 => 10,
                _ => 20,
            };
            for k in 1..=max.min(b.len()) {
                let rest = spells(&b[k..], &p[1..]);
                if is_false(rest) {
                    continue;
                }
                let mut v = konst(72, 0);
                let mut c = vec![rest];
                for d in &b[..k] {
                    c.push(and(ule(k8(b'0'), *d), ule(*d, k8(b'9'))));
                    v = add(mul(v, konst(72, 10)), zext(72, sub(*d, k8(b'0'))));
                }
                if k > 1 {
                    c.push(not(eq(b[0], k8(b'0'))));
                }
                c.push(eq(v, zext(72, *e)));
                alts.push(all(&c));
            }
            any(&alts)
        }
    }
}

const STANDARDS: [&str; 6] = ["NonFungible", "FungibleAsset", "Fungible", "NonFungibleEdition", "ProgrammableNonFungible", "ProgrammableNonFungibleEdition"];
const METHODS: [&str; 3] = ["Burn", "Multiple", "Single"];

pub fn b58enc(k: &[u8]) -> String {
    const A: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut d: Vec<u8> = vec![];
    for b in k {
        let mut c = *b as u32;
        for x in d.iter_mut() {
            c += (*x as u32) << 8;
            *x = (c % 58) as u8;
            c /= 58;
        }
        while c > 0 {
            d.push((c % 58) as u8);
            c /= 58;
        }
    }
    let z = k.iter().take_while(|b| **b == 0).count();
    let mut s = "1".repeat(z);
    s.extend(d.iter().rev().map(|x| A[*x as usize] as char));
    s
}
fn key_text(k: &Key) -> String {
    let b: Vec<u8> = k.iter().map(|e| as_const(*e).expect("address in text") as u8).collect();
    b58enc(&b)
}

/// a rule set's address is written as a list of its bytes
fn key_list(k: &Key) -> String {
    let b: Vec<String> = k.iter().map(|e| as_const(*e).expect("address in text").to_string()).collect();
    format!("[{}]", b.join(","))
}

/// additional fields a Metaplex record turns into
pub fn extra_of(r: &MplRec) -> Vec<(String, Vec<Piece>)> {
    use Piece::*;
    let l = |s: &str| L(s.to_string());
    let mut v = vec![
        ("key".to_string(), vec![l("\"MetadataV1\"")]),
        ("seller_fee_basis_points".to_string(), vec![D(r.data.fee)]),
        ("primary_sale_happened".to_string(), vec![B(r.primary)]),
        ("is_mutable".to_string(), vec![B(r.mutable)]),
    ];
    if let Some(c) = r.data.creators.as_ref().filter(|c| !c.is_empty()) {
        let mut p = vec![l("[")];
        for (i, (k, _, share)) in c.iter().enumerate() {
            p.push(L(format!("{}{{\"address\":\"{}\",\"verified\":false,\"share\":", if i > 0 { "," } else { "" }, key_text(k))));
            p.push(D(*share));
            p.push(l("}"));
        }
        p.push(l("]"));
        v.push(("creators".into(), p));
    }
    if let Some(n) = r.nonce {
        v.push(("edition_nonce".into(), vec![D(n)]));
    }
    if let Some(s) = r.standard {
        v.push(("token_standard".into(), vec![l("\""), N(s, &STANDARDS), l("\"")]));
    }
    if let Some((ver, k)) = &r.data.collection {
        v.push(("collection".into(), vec![l("{\"verified\":"), B(*ver), L(format!(",\"key\":\"{}\"}}", key_text(k)))]));
    }
    if let Some((m, rem, tot)) = &r.data.uses {
        v.push((
            "uses".into(),
            vec![l("{\"use_method\":\""), N(*m, &METHODS), l("\",\"remaining\":"), D(*rem), l(",\"total\":"), D(*tot), l("}")],
        ));
    }
    if let Some((_, n)) = &r.details {
        v.push(("collection_details".into(), vec![l("{\"V1\":{\"size\":"), D(*n), l("}}")]));
    }
    if let Some(rs) = &r.rules {
        let s = match rs {
            Some(k) => format!("{{\"V1\":{{\"rule_set\":{}}}}}", key_list(k)),
            None => "{\"V1\":{\"rule_set\":null}}".into(),
        };
        v.push(("programmable_config".into(), vec![L(s)]));
    }
    v
}

/// metadata a source stands for
#[derive(Clone)]
pub struct Sem {
    pub name: S,
    pub symbol: S,
    pub uri: S,
    pub extra: Vec<(S, Vec<Vec<Piece>>, Option<S>)>,
    pub dv2: DataV2,
}
fn sem_of_mpl(r: &MplRec) -> Sem {
    let mut d = r.data.clone();
    // signatures of creators and collection authorities cannot be carried over
    d.creators = d.creators.filter(|c| !c.is_empty()).map(|c| c.into_iter().map(|x| (x.0, k8(0), x.2)).collect());
    d.collection = d.collection.map(|c| (k8(0), c.1));
    Sem {
        name: d.name.clone(),
        symbol: d.symbol.clone(),
        uri: d.uri.clone(),
        extra: extra_of(r).into_iter().map(|(k, p)| (cbytes(k.as_bytes()), vec![p], None)).collect(),
        dv2: d,
    }
}
fn sem_of_token(m: &TokenMd, dv2: &DataV2) -> Sem {
    let mut d = dv2.clone();
    d.name = m.name.clone();
    d.symbol = m.symbol.clone();
    d.uri = m.uri.clone();
    d.creators = d.creators.map(|c| c.into_iter().map(|x| (x.0, k8(0), x.2)).collect());
    d.collection = d.collection.map(|c| (k8(0), c.1));
    Sem {
        name: m.name.clone(),
        symbol: m.symbol.clone(),
        uri: m.uri.clone(),
        extra: m.extra.iter().map(|(k, v)| (k.clone(), vec![], Some(v.clone()))).collect(),
        dv2: d,
    }
}
/// the Token-2022 metadata says what the source says, no more and no less
fn t22_says(m: &TokenMd, s: &Sem) -> E {
    let mut v = vec![text_eq(&m.name, &s.name), text_eq(&m.symbol, &s.symbol), text_eq(&m.uri, &s.uri), k1(m.extra.len() == s.extra.len())];
    for (k, p, val) in &s.extra {
        let alts: Vec<E> = m
            .extra
            .iter()
            .map(|(mk, mv)| {
                let c = s_eq(mk, k);
                if is_false(c) {
                    return c;
                }
                let same = match val {
                    Some(x) => s_eq(mv, x),
                    None => any(&p.iter().map(|p| spells(mv, p)).collect::<Vec<_>>()),
                };
                and(c, same)
            })
            .collect();
        v.push(any(&alts));
    }
    all(&v)
}
fn opt_eq<T>(a: &Option<T>, b: &Option<T>, f: impl Fn(&T, &T) -> E) -> E {
    match (a, b) {
        (None, None) => tru(),
        (Some(a), Some(b)) => f(a, b),
        _ => fls(),
    }
}
fn mpl_says(m: &DataV2, s: &DataV2) -> E {
    all(&[
        text_eq(&m.name, &s.name),
        text_eq(&m.symbol, &s.symbol),
        text_eq(&m.uri, &s.uri),
        eq(m.fee, s.fee),
        opt_eq(&m.creators, &s.creators, |a, b| {
            if a.len() != b.len() {
                return fls();
            }
            all(&a.iter().zip(b).map(|(x, y)| all(&[key_eq(&x.0, &y.0), eq(x.1, y.1), eq(x.2, y.2)])).collect::<Vec<_>>())
        }),
        opt_eq(&m.collection, &s.collection, |a, b| and(eq(a.0, b.0), key_eq(&a.1, &b.1))),
        opt_eq(&m.uses, &s.uses, |a, b| all(&[eq(a.0, b.0), eq(a.1, b.1), eq(a.2, b.2)])),
    ])
}

// ---------------------------------------------------------------- scenarios

/// shape of a Metaplex record; contents symbolic
#[derive(Clone, Default)]
pub struct MplCfg {
    pub name: usize,
    pub symbol: usize,
    pub uri: usize,
    /// stored padded with zeros to the full width
    pub pad: bool,
    pub creators: Option<usize>,
    pub nonce: bool,
    pub standard: bool,
    pub collection: bool,
    pub uses: bool,
    pub details: bool,
    pub rules: Option<bool>,
    /// bytes after the record
    pub tail: usize,
    /// first creator key
    pub seed: u8,
    /// the fields rendered or branched on that are symbolic ("*": all); the rest hold typical values
    pub sym: &'static str,
    pub wide: bool,
    /// the fixed numbers are as large as they can be
    pub big: bool,
}
#[derive(Clone, Default)]
pub struct TmCfg {
    pub name: usize,
    pub symbol: usize,
    pub uri: usize,
    /// '?' in a name: any character
    pub extra: Vec<(&'static str, Val2)>,
    /// texts contain characters of several bytes
    pub wide: bool,
}
/// value of an additional field
#[derive(Clone)]
pub enum Val2 {
    /// unconstrained text
    Any(usize),
    /// the largest numbers there are, but for the last digit
    BigUses,
    /// number with this many digits
    Fee(usize),
    Creators(usize),
    /// creators with this many digits of a share each
    Shares(&'static [usize]),
    Collection(bool),
    Uses(usize),
}

pub fn text(n: &str, len: usize) -> S {
    (0..len).map(|i| zext(8, var(&format!("{n}[{i}]"), 7))).collect()
}
/// characters of two, three and four bytes at both ends
fn wide_text(n: &str, len: usize, wide: bool) -> S {
    let mut s = text(n, len);
    if wide && len >= 2 {
        s[..2].copy_from_slice(&cbytes("\u{e9}".as_bytes()));
    }
    if wide && len >= 5 {
        s[len - 3..].copy_from_slice(&cbytes("\u{65e5}".as_bytes()));
    }
    if wide && len >= 9 {
        s[2..6].copy_from_slice(&cbytes("\u{1f980}".as_bytes()));
    }
    s
}
fn le32(n: usize) -> S {
    to_bytes(konst(32, n as u128))
}
fn push_s(v: &mut S, s: &[E]) {
    v.extend(le32(s.len()));
    v.extend(s);
}
fn creator_key(i: usize, seed: u8) -> Key {
    kk(tok_seed(0xC0 + 16 * seed as u64 + i as u64))
}
fn tok_seed(n: u64) -> [u8; 32] {
    let mut b = crate::sys::tag_bytes(0x5000_0000 + n);
    b[0] |= 1;
    b
}
impl MplCfg {
    fn on(&self, f: &str) -> bool {
        self.sym == "*" || self.sym.split(' ').any(|x| x == f)
    }
    fn num(&self, b: &mut B, f: &str, n: &str, w: u16, max: u128, typical: u128) -> E {
        if !self.on(f) {
            let top = if w == 64 { u64::MAX as u128 - (typical < 5) as u128 } else { max };
            return konst(w, if self.big && max > 2 && f != "share" { top } else { typical });
        }
        let e = var(n, w);
        b.assume(ule(e, konst(w, max)));
        e
    }
}
pub fn mpl_record(b: &mut B, n: &str, c: &MplCfg) -> S {
    let mut v = vec![v8(&format!("{n}.kind"))];
    v.extend(vkey(&format!("{n}.ua")));
    v.extend(vkey(&format!("{n}.mint")));
    for (f, l, w) in [("name", c.name, 32), ("symbol", c.symbol, 10), ("uri", c.uri, 200)] {
        let mut s = wide_text(&format!("{n}.{f}"), l, c.wide);
        if c.pad {
            s.resize(w, k8(0));
        }
        push_s(&mut v, &s);
    }
    let fee = c.num(b, "fee", &format!("{n}.fee"), 16, 10000, 250);
    v.extend(to_bytes(fee));
    match c.creators {
        None => v.push(k8(0)),
        Some(k) => {
            v.push(k8(1));
            v.extend(le32(k));
            for i in 0..k {
                v.extend(creator_key(i, c.seed));
                v.push(c.num(b, "verified", &format!("{n}.creator{i}.verified"), 8, 1, (i as u128 + 1) % 2));
                let typical = if k == 1 { 100 } else if i == 0 { 100 - 7 * (k as u128 - 1) } else { 7 };
                v.push(c.num(b, "share", &format!("{n}.creator{i}.share"), 8, 100, typical));
            }
        }
    }
    v.push(c.num(b, "primary", &format!("{n}.primary"), 8, 1, 0));
    v.push(c.num(b, "mutable", &format!("{n}.mutable"), 8, 1, 1));
    let opt = |b: &mut B, v: &mut S, on: bool, f: &dyn Fn(&mut B) -> S| {
        v.push(k8(on as u8));
        if on {
            v.extend(f(b));
        }
    };
    opt(b, &mut v, c.nonce, &|b| vec![c.num(b, "nonce", &format!("{n}.nonce"), 8, 255, 254)]);
    opt(b, &mut v, c.standard, &|b| vec![c.num(b, "standard", &format!("{n}.standard"), 8, 5, 2)]);
    opt(b, &mut v, c.collection, &|b| {
        let mut x = vec![c.num(b, "collection", &format!("{n}.collection.verified"), 8, 1, 1)];
        x.extend(creator_key(15, c.seed));
        x
    });
    opt(b, &mut v, c.uses, &|b| {
        let mut x = vec![c.num(b, "method", &format!("{n}.uses.method"), 8, 2, 1)];
        for (f, t) in [("remaining", 3), ("total", 7)] {
            x.extend(to_bytes(c.num(b, f, &format!("{n}.uses.{f}"), 64, 9999, t)));
        }
        x
    });
    opt(b, &mut v, c.details, &|b| {
        let mut x = vec![k8(0)];
        x.extend(to_bytes(c.num(b, "size", &format!("{n}.details.size"), 64, 9999, 42)));
        x
    });
    opt(b, &mut v, c.rules.is_some(), &|_| {
        let mut x = vec![k8(0)];
        if c.rules == Some(true) {
            x.push(k8(1));
            x.extend(creator_key(14, c.seed));
        } else {
            x.push(k8(0));
        }
        x
    });
    v.extend(zeros(c.tail));
    v
}
/// serialized Token-2022 metadata, and the Metaplex content its additional fields describe
pub fn token_record(b: &mut B, n: &str, c: &TmCfg, ua: Option<Key>, mint: Key) -> (S, DataV2) {
    let mut v = ua.unwrap_or_else(|| vkey(&format!("{n}.ua"))).to_vec();
    v.extend(mint);
    for (f, l) in [("name", c.name), ("symbol", c.symbol), ("uri", c.uri)] {
        push_s(&mut v, &wide_text(&format!("{n}.{f}"), l, c.wide));
    }
    let mut d = DataV2 { name: vec![], symbol: vec![], uri: vec![], fee: konst(16, 0), creators: None, collection: None, uses: None };
    v.extend(le32(c.extra.len()));
    let mut keys: Vec<S> = vec![];
    for (k, x) in &c.extra {
        let mut key = cbytes(k.as_bytes());
        for (i, ch) in k.bytes().enumerate() {
            if ch == b'?' {
                key[i] = zext(8, var(&format!("{n}.key.{k}[{i}]"), 7));
            }
        }
        for o in &keys {
            // no two fields have the same name
            let same = s_eq(o, &key);
            b.assume(not(same));
        }
        push_s(&mut v, &key);
        keys.push(key);
        let digits = |b: &mut B, f: &str, k: usize| -> (S, E) {
            let s: S = (0..k).map(|i| v8(&format!("{n}.{f}[{i}]"))).collect();
            let mut e = konst(64, 0);
            for (i, c) in s.iter().enumerate() {
                b.assume(ule(if i == 0 && k > 1 { k8(b'1') } else { k8(b'0') }, *c));
                b.assume(ule(*c, k8(b'9')));
                e = add(mul(e, k64(10)), zext(64, sub(*c, k8(b'0'))));
            }
            (s, e)
        };
        let val: S = match x {
            Val2::Any(l) => wide_text(&format!("{n}.extra.{k}"), *l, c.wide),
            Val2::BigUses => {
                let (a, x) = digits(b, "remaining", 1);
                let (t, y) = digits(b, "total", 1);
                b.assume(ule(x, k64(4)));
                b.assume(ule(y, k64(5)));
                let mut s = cbytes(b"{\"use_method\":\"Multiple\",\"remaining\":1844674407370955161");
                s.extend(a);
                s.extend(cbytes(b",\"total\":1844674407370955161"));
                s.extend(t);
                s.push(k8(b'}'));
                let base = k64(18446744073709551610);
                d.uses = Some((k8(1), add(base, x), add(base, y)));
                s
            }
            Val2::Fee(l) => {
                let (s, e) = digits(b, "fee", *l);
                b.assume(ule(e, k64(65535)));
                d.fee = extract(15, 0, e);
                s
            }
            Val2::Creators(_) | Val2::Shares(_) => {
                let ds: Vec<usize> = match x {
                    Val2::Creators(1) => vec![3],
                    Val2::Creators(m) => vec![2; *m],
                    Val2::Shares(d) => d.to_vec(),
                    _ => vec![],
                };
                let mut s = cbytes(b"[");
                let mut cs = vec![];
                for (i, k) in ds.into_iter().enumerate() {
                    let ck = creator_key(i, 0);
                    s.extend(cbytes(format!("{}{{\"address\":\"{}\",\"verified\":{},\"share\":", if i > 0 { "," } else { "" }, key_text(&ck), i % 2 == 0).as_bytes()));
                    let (t, e) = digits(b, &format!("share{i}"), k);
                    b.assume(ule(e, k64(255)));
                    s.extend(t);
                    s.push(k8(b'}'));
                    cs.push((ck, k8((i % 2 == 0) as u8), extract(7, 0, e)));
                }
                s.push(k8(b']'));
                d.creators = Some(cs);
                s
            }
            Val2::Collection(ver) => {
                let ck = creator_key(15, 0);
                d.collection = Some((k8(*ver as u8), ck));
                cbytes(format!("{{\"verified\":{},\"key\":\"{}\"}}", ver, key_text(&ck)).as_bytes())
            }
            Val2::Uses(m) => {
                let (a, x) = digits(b, "remaining", 1);
                let (t, y) = digits(b, "total", 2);
                let mut s = cbytes(format!("{{\"use_method\":\"{}\",\"remaining\":", METHODS[*m]).as_bytes());
                s.extend(a);
                s.extend(cbytes(b",\"total\":"));
                s.extend(t);
                s.push(k8(b'}'));
                d.uses = Some((k8(*m as u8), x, y));
                s
            }
        };
        push_s(&mut v, &val);
    }
    (v, d)
}

#[derive(Clone)]
pub enum Src {
    /// metadata on the unwrapped mint itself
    Own(TmCfg),
    /// Metaplex record of an SPL mint
    Spl(MplCfg),
    /// Metaplex record of a Token-2022 mint without pointer
    Bare(MplCfg),
    /// Metaplex record a pointer leads to
    Ptr(MplCfg),
    /// another program's record a pointer leads to
    Ext(TmCfg),
    /// pointer to an account of this layout, nothing known to be there
    Nothing,
}
#[derive(Clone)]
pub enum Tgt {
    NoRecord,
    Token(TmCfg),
    Mpl(MplCfg),
}
#[derive(Clone)]
pub struct SyncOpt {
    pub to: Prog,
    pub src: Src,
    pub tgt: Tgt,
    pub live: bool,
    pub cut: usize,
    pub alias: Vec<(&'static str, &'static str)>,
    pub fake: bool,
    /// only this part of the inputs may vary in adversarial runs: addresses fixed to the documented ones
    pub canon: bool,
    /// the unwrapped mint holds metadata of its own although it points elsewhere
    pub decoy: bool,
    /// what happened to the wrapped record since
    pub since: &'static str,
}
impl SyncOpt {
    pub fn new(to: Prog, src: Src, tgt: Tgt) -> SyncOpt {
        SyncOpt { to, src, tgt, live: false, cut: 0, alias: vec![], fake: false, canon: false, decoy: false, since: "" }
    }
}

#[derive(Clone)]
pub struct Md {
    /// Metaplex content described by the additional fields of the unwrapped mint's own metadata, or of the returned record
    pub dv2: Option<DataV2>,
    pub ret: Option<TokenMd>,
}

fn with_md(n: &str, exts: &[u16], rec: Option<S>) -> S {
    let mut d = mint_data(n, exts);
    if let Some(r) = rec {
        push_ext_header(&mut d, ext::TOKEN_METADATA, r.len());
        d.extend(r);
    }
    d
}

pub fn sync(o: &SyncOpt, name: &str) -> Scn {
    let mut b = B::new(name);
    b.alias = o.alias.iter().map(|a| (a.0.to_string(), a.1.to_string())).collect();
    b.canon = o.live || o.canon;
    let um = vkey("unwrapped_mint.key");
    let (mut wk, mut ak, mut mk) = (None, None, None);
    if b.canon {
        let w = b.wrapped_mint_key(&um, o.to.id());
        ak = Some(b.authority_key(&w));
        if o.to == Prog::Spl {
            mk = Some(b.mpl_key(&w));
        }
        wk = Some(w);
    }
    b.w.ix = vec![k8(if o.to == Prog::T22 { 4 } else { 5 })];
    let mut md = Md { dv2: None, ret: None };
    let up = if matches!(o.src, Src::Spl(_)) { Prog::Spl } else { Prog::T22 };
    let put_wmint = |b: &mut B| {
        let exts: Vec<u16> = if o.to == Prog::T22 { WDEF.to_vec() } else { vec![] };
        let rec = match &o.tgt {
            Tgt::Token(c) => {
                let wkey = wk.unwrap_or_else(|| vkey("wrapped_mint.key"));
                Some(token_record(b, "wmd", c, None, wkey).0)
            }
            _ => None,
        };
        let d = with_md("wrapped_mint", &exts, rec);
        let i = b.data_at("wrapped_mint", wk, d);
        if b.w.accts[i].name == "wrapped_mint" {
            wf_mint(&mut b.w, i);
        }
    };
    let put_umint = |b: &mut B, md: &mut Md| {
        let (exts, rec): (Vec<u16>, Option<S>) = match &o.src {
            Src::Own(c) => {
                let mkey = vkey("umd.mint");
                let (r, d) = token_record(b, "umd", c, None, mkey);
                md.dv2 = Some(d);
                (vec![ext::METADATA_POINTER], Some(r))
            }
            Src::Spl(_) => (vec![], None),
            Src::Bare(_) => (vec![ext::TRANSFER_FEE_CONFIG], None),
            _ if o.decoy => {
                let c = TmCfg { name: 2, symbol: 1, uri: 3, extra: vec![("ab", Val2::Any(2))], wide: false };
                let mkey = vkey("umd.mint");
                (vec![ext::METADATA_POINTER], Some(token_record(b, "umd", &c, None, mkey).0))
            }
            _ => (vec![ext::METADATA_POINTER], None),
        };
        let d = with_md("unwrapped_mint", &exts, rec);
        let i = b.data_at("unwrapped_mint", Some(um), d);
        if b.w.accts[i].name == "unwrapped_mint" {
            wf_mint(&mut b.w, i);
        }
    };
    if o.to == Prog::T22 {
        put_wmint(&mut b);
        b.wallet("authority", ak);
        put_umint(&mut b, &mut md);
        if o.fake {
            b.fake_program("token_program");
        } else {
            b.program("token_program", ids::t22());
        }
    } else {
        match &o.tgt {
            Tgt::Mpl(c) => {
                let d = mpl_record(&mut b, "old", c);
                b.data_at("metaplex", mk, d);
            }
            _ => {
                b.wallet("metaplex", mk);
            }
        }
        b.wallet("authority", ak);
        put_wmint(&mut b);
        put_umint(&mut b, &mut md);
        if o.fake {
            b.fake_program("metaplex_program");
        } else {
            b.program("metaplex_program", ids::mpl());
        }
        b.program("system", ids::system());
        b.slot("rent", |b| {
            let i = b.w.add("rent", kk(ids::rent()), kk(b58("Sysvar1111111111111111111111111111111111111")), k64(1009200), vec![]);
            let mut d = to_bytes(k64(3480));
            d.extend(to_bytes(konst(64, 2.0f64.to_bits() as u128)));
            d.push(k8(50));
            b.w.accts[i].st.data = Rc::new(d);
            b.w.accts[i].writable = fls();
            b.w.accts[i].signer = fls();
            i
        });
    }
    // the source
    match &o.src {
        Src::Own(_) => {}
        Src::Spl(c) | Src::Bare(c) => {
            let k = if o.live { Some(b.mpl_key(&um)) } else { None };
            let d = mpl_record(&mut b, "src", c);
            b.data_at("source", k, d);
        }
        Src::Ptr(c) => {
            let d = mpl_record(&mut b, "src", c);
            b.data_at("source", None, d);
        }
        Src::Ext(c) => {
            b.data_at("source", None, vbytes("source.data", 8));
            b.fake_program("owner_program");
            let (r, d) = token_record(&mut b, "ret", c, None, vkey("ret.mint"));
            md.dv2 = Some(d);
            md.ret = Rd { d: &r, o: 0 }.token_md();
            // whoever answered
            let by = if o.live { b.key("owner_program") } else { vkey("ret.program") };
            b.w.other.ret = Some((by, r));
        }
        Src::Nothing => {
            b.data_at("source", None, vbytes("source.data", 8));
            b.fake_program("owner_program");
        }
    }
    if o.to == Prog::Spl && !matches!(o.tgt, Tgt::Mpl(_)) {
        // the documented funding of the authority
        let l = b.w.accts[b.r("authority")].st.lamports;
        b.assume(ule(k64(1_000_000_000), l));
        let l = b.w.accts[b.r("metaplex")].st.lamports;
        b.assume(ule(l, k64(1_000_000_000)));
    }
    if o.decoy {
        let d = b.d("unwrapped_mint");
        let at = ext_at(&d, ext::METADATA_POINTER).unwrap();
        b.assume(not(key_eq(&key_of(&d[at + 32..at + 64]), &um)));
    }
    if o.live {
        live_sync(&mut b, o, up, &md);
    }
    cut(&mut b, o.cut);
    let mut s = b.done("sync", up, o.to, k64(0));
    s.meta.live = o.live;
    s.meta.must_fail = o.fake || o.cut > 0 || matches!(o.src, Src::Nothing);
    s.meta.md = Some(md);
    s
}

fn live_sync(b: &mut B, o: &SyncOpt, up: Prog, md: &Md) {
    b.set_owner("unwrapped_mint", up.id());
    b.set_owner("wrapped_mint", o.to.id());
    let (um, au) = (b.key("unwrapped_mint"), b.key("authority"));
    for (n, p) in [("unwrapped_mint", up), ("wrapped_mint", o.to)] {
        let d = b.d(n);
        b.assume(mint_ok(p, &d));
        b.assume(mint_wf(&d));
    }
    let d = b.d("wrapped_mint");
    b.assume(opt_some(&d, M_AUTH));
    b.keyat("wrapped_mint", M_AUTH + 4, au);
    b.set_owner("authority", ids::system());
    if o.to == Prog::T22 {
        b.writes("wrapped_mint");
        if let Some(m) = md_of_mint(&d) {
            b.assume(key_eq(&m.ua, &au));
        }
    } else {
        b.writes("metaplex");
        b.writes("authority");
        let d = b.d("metaplex");
        if let Tgt::Mpl(_) = o.tgt {
            b.set_owner("metaplex", ids::mpl());
            let r = Rd { d: &d, o: 0 }.mpl_rec().unwrap();
            b.assume(eq(d[0], k8(4)));
            b.assume(key_eq(&r.ua, &au));
            b.assume(eq(r.mutable, k8(1)));
            // nobody signed for the wrapped record, and nothing was used up
            for c in r.data.creators.iter().flatten() {
                b.assume(eq(c.1, k8((o.since == "signed") as u8)));
            }
            if let Some(c) = &r.data.collection {
                b.assume(eq(c.0, k8((o.since == "joined") as u8)));
            }
            if o.since == "used" {
                let (ix, iy) = (b.d("source"), r.data.uses.as_ref().unwrap());
                let x = Rd { d: &ix, o: 0 }.mpl_rec().unwrap().data.uses.unwrap();
                b.assume(not(all(&[eq(x.0, iy.0), eq(x.1, iy.1), eq(x.2, iy.2)])));
            }
            if let Some(u) = &r.data.uses {
                b.assume(if o.since.starts_with("used") { ult(u.1, u.2) } else { eq(u.1, u.2) });
            }
        } else {
            b.set_owner("metaplex", ids::system());
        }
    }
    let ud = b.d("unwrapped_mint");
    let ptr = ext_at(&ud, ext::METADATA_POINTER).map(|o| key_of(&ud[o + 32..o + 64]));
    match &o.src {
        Src::Own(_) => b.assume(key_eq(&ptr.unwrap(), &um)),
        Src::Nothing => {}
        _ => {
            let sk = b.key("source");
            if let Some(p) = ptr {
                b.assume(key_eq(&p, &sk));
                b.assume(not(key_eq(&sk, &kk([0; 32]))));
            }
            if let Src::Ext(_) = o.src {
                let k = b.key("owner_program");
                let i = b.r("source");
                b.w.accts[i].st.owner = k;
                let h = b.w.hook_ok;
                b.assume(h);
            } else {
                b.set_owner("source", ids::mpl());
                let d = b.d("source");
                b.assume(eq(d[0], k8(4)));
            }
        }
    }
    // what the target can hold
    if o.to == Prog::Spl {
        let d = match &o.src {
            Src::Own(_) => md_of_mint(&ud).map(|t| sem_of_token(&t, md.dv2.as_ref().unwrap()).dv2),
            Src::Ext(_) => md.ret.as_ref().map(|t| sem_of_token(t, md.dv2.as_ref().unwrap()).dv2),
            _ => {
                let d = b.d("source");
                Rd { d: &d, o: 0 }.mpl_rec().map(|r| sem_of_mpl(&r).dv2)
            }
        };
        if let Some(mut d) = d {
            // a stored text may be padded
            for (x, w) in [(&mut d.name, 32), (&mut d.symbol, 10), (&mut d.uri, 200)] {
                x.truncate(w);
            }
            b.assume(mpl_content_ok(&d, None));
        }
    }
}

// ---------------------------------------------------------------- assertions

/// every source the documents designate for this mint, with the condition under which it is the one
fn designated(e: &mut Engine, st: &mut State, m: &Meta) -> Vec<(&'static str, E, Sem)> {
    let mut v = vec![];
    let um = pre(e, m, "unwrapped_mint");
    let umk = key(e, m, "unwrapped_mint");
    let spl = key_eq(&um.owner, &kk(ids::spl()));
    let t22 = and(key_eq(&um.owner, &kk(ids::t22())), mint_ok(Prog::T22, &um.data));
    let md = m.md.clone().unwrap();
    let ptr = ext_at(&um.data, ext::METADATA_POINTER).map(|o| key_of(&um.data[o + 32..o + 64]));
    if let (Some(p), Some(own), Some(d)) = (ptr, md_of_mint(&um.data), &md.dv2) {
        v.push(("the mint itself", and(t22, key_eq(&p, &umk)), sem_of_token(&own, d)));
    }
    if m.has("source") {
        let s = pre(e, m, "source");
        let sk = key(e, m, "source");
        let mpl = key_eq(&s.owner, &kk(ids::mpl()));
        let rec = Rd { d: &s.data, o: 0 }.mpl_rec();
        if let Some(r) = rec {
            let mut good = vec![mpl, eq(s.data[0], k8(4))];
            match ptr {
                Some(p) => good.extend([t22, key_eq(&p, &sk), not(key_eq(&p, &kk([0; 32])))]),
                None => {
                    let mut c = cbytes(b"metadata");
                    c.extend(kk(ids::mpl()));
                    c.extend(umk);
                    let want = e.spec_pda(st, &c, &kk(ids::mpl()));
                    good.extend([or(t22, spl), key_eq(&sk, &want)]);
                }
            }
            v.push(("a Metaplex record", all(&good), sem_of_mpl(&r)));
        }
        if let (Some(p), Some(ret), Some(d), true) = (ptr, &md.ret, &md.dv2, m.has("owner_program")) {
            let ok = key(e, m, "owner_program");
            let by = e.world.other.ret.as_ref().unwrap().0;
            let c = all(&[
                t22,
                key_eq(&p, &sk),
                not(key_eq(&p, &kk([0; 32]))),
                key_eq(&s.owner, &ok),
                key_eq(&by, &ok),
                not(key_eq(&ok, &kk(ids::t22()))),
                not(mpl),
            ]);
            v.push(("another program", c, sem_of_token(ret, d)));
        }
    }
    v
}

pub fn asserts(prop: &str, e: &mut Engine, st: &mut State, m: &Meta, out: &mut Out) {
    let to22 = m.wp == Prog::T22;
    let auth = key(e, m, "authority");
    let wmk = key(e, m, "wrapped_mint");
    let umk = key(e, m, "unwrapped_mint");
    let ds = designated(e, st, m);
    match prop {
        "C14" if to22 => {
            let w = post(st, m, "wrapped_mint");
            let c = match token_md(&w) {
                None => fls(),
                Some(got) => {
                    out.st("only the derived authority may edit the metadata", or(key_eq(&got.ua, &auth), k1(w.md.is_none())));
                    any(&ds.iter().map(|(_, c, s)| and(*c, t22_says(&got, s))).collect::<Vec<_>>())
                }
            };
            out.st("the wrapped mint's metadata says what the source says", c);
        }
        "C15" if !to22 => {
            let w = post(st, m, "metaplex");
            let c = match mpl_rec(&w) {
                None => fls(),
                Some(got) => {
                    out.st("only the derived authority may edit the record", key_eq(&got.ua, &auth));
                    out.st("the record stays editable", eq(got.mutable, k8(1)));
                    if pre(e, m, "metaplex").data.is_empty() {
                        out.st("the record describes the wrapped mint", key_eq(&got.mint, &wmk));
                    }
                    any(&ds.iter().map(|(_, c, s)| and(*c, mpl_says(&got.data, &s.dv2))).collect::<Vec<_>>())
                }
            };
            out.st("the record says what the source says", c);
        }
        "C16" => {
            out.st("the metadata comes from the designated source", any(&ds.iter().map(|x| x.1).collect::<Vec<_>>()));
            let prog = kk(m.wp.id());
            let k = spec_mint(e, st, &umk, &prog);
            out.st("the wrapped mint is the derived address", key_eq(&wmk, &k));
            let wm = pre(e, m, "wrapped_mint");
            out.st("the wrapped mint belongs to its token program", key_eq(&wm.owner, &prog));
            let a = spec_under(e, st, b"authority", &wmk);
            out.st("the authority is the derived address", key_eq(&auth, &a));
            let wm2 = post(st, m, "wrapped_mint");
            out.st("lamports of the wrapped mint stay", eq(wm.lamports, wm2.lamports));
            if to22 {
                frame(e, st, m, &["wrapped_mint"], out, "frame");
                // the metadata instructions of the token program change nothing but the metadata
                let odd: Vec<E> = st
                    .cpis
                    .iter()
                    .filter(|c| c.kind != "other")
                    .map(|c| {
                        let first = c.metas.first().map(|x| x.acct == m.r("wrapped_mint")).unwrap_or(false);
                        and(k1(c.kind.starts_with("md_") && first), key_eq(&c.program, &kk(ids::t22())))
                    })
                    .collect();
                out.call("only the metadata of the wrapped mint is edited", all(&odd));
            } else {
                let mut c = cbytes(b"metadata");
                c.extend(kk(ids::mpl()));
                c.extend(wmk);
                let want = e.spec_pda(st, &c, &kk(ids::mpl()));
                let mk = key(e, m, "metaplex");
                out.st("the record is at the derived address", key_eq(&mk, &want));
                let created = pre(e, m, "metaplex").data.is_empty();
                frame(e, st, m, if created { &["metaplex", "authority"] } else { &["metaplex"] }, out, "frame");
                let odd: Vec<E> = st
                    .cpis
                    .iter()
                    .filter(|c| c.kind != "other")
                    .map(|c| {
                        let first = c.metas.first().map(|x| x.acct == m.r("metaplex")).unwrap_or(false);
                        and(k1(c.kind.starts_with("mpl_") && first), key_eq(&c.program, &kk(ids::mpl())))
                    })
                    .collect();
                out.call("only the record of the wrapped mint is edited", all(&odd));
            }
            for (n, c) in st.cpis.iter().enumerate() {
                let others: Vec<E> = if c.kind == "other" {
                    c.metas.iter().map(|x| not(x.signer)).chain([k1(c.signer_tags.is_empty())]).collect()
                } else {
                    // signatures come from the derived authority alone
                    c.signer_tags
                        .iter()
                        .map(|t| key_eq(&a, &key_const(t)))
                        .chain(c.metas.iter().map(|x| implies(x.signer, key_eq(&x.key, &a))))
                        .collect()
                };
                out.call(&format!("call {n} ({}) lends only the authority's signature", c.kind), all(&others));
            }
        }
        _ => {}
    }
}
