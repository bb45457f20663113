//! Writes Rust source: derive definitions with their schema, and anonymous types built from them.
//!
//! The text of a definition and its schema come from the same description, so the schema is what the
//! definition means by the documentation of the derive macros, never what the macros produce.
use crate::consts;
use crate::source::Source;
use std::fmt::Write as _;

#[derive(Clone, Debug)]
pub struct Ty {
    pub rust: String,
    pub default: bool,
    pub ord: bool,
    pub variable: bool,
    pub zero: bool,
    /// Rough cost (size of values, depth).
    pub weight: usize,
}

fn ty(rust: &str, default: bool, ord: bool, variable: bool) -> Ty {
    Ty { rust: rust.into(), default, ord, variable, zero: false, weight: 1 }
}

/// typenum expression of n.
pub fn typenum(n: u64) -> String {
    let mut s = "typenum::UTerm".to_string();
    if n > 0 {
        for i in (0..64 - n.leading_zeros()).rev() {
            s = format!("typenum::UInt<{s}, typenum::B{}>", n >> i & 1);
        }
    }
    s
}

/// Line between two definitions.
pub const MARK: &str = "//@\n";

pub struct TypeGen {
    pub src: Source,
    pub out: String,
    pub pool: Vec<Ty>,
    /// Types to test.
    pub entries: Vec<String>,
    n: usize,
    legacy: Vec<(String, Ty)>,
    nbits: Vec<u64>,
    prefix: String,
}

struct F {
    ty: Ty,
    skip_ser: bool,
    skip_de: bool,
    /// (module, schema, from_val, to_val, heap)
    with: Option<String>,
}

impl F {
    fn plain(ty: Ty) -> F {
        F { ty, skip_ser: false, skip_de: false, with: None }
    }
    fn attr(&self, src: &mut Source) -> String {
        let mut parts = vec![];
        if let Some(m) = &self.with {
            parts.push(format!("with = \"{m}\""));
        }
        if self.skip_ser {
            parts.push("skip_serializing".to_string());
        }
        if self.skip_de {
            parts.push("skip_deserializing".to_string());
        }
        if parts.len() > 1 && src.boolean() {
            parts.reverse();
        }
        if parts.is_empty() {
            String::new()
        } else {
            format!("#[ssz({})] ", parts.join(", "))
        }
    }
    fn schema(&self) -> String {
        match &self.with {
            Some(m) => format!("{m}::model::schema()"),
            None => format!("<{} as Model>::schema()", self.ty.rust),
        }
    }
    fn field(&self) -> String {
        format!("Field {{ schema: {}, skip_ser: {}, skip_de: {} }}", self.schema(), self.skip_ser, self.skip_de)
    }
    fn from_val(&self, e: &str) -> String {
        match &self.with {
            Some(m) => format!("{m}::model::from_val({e})"),
            None => format!("<{} as Model>::from_val({e})", self.ty.rust),
        }
    }
    fn to_val(&self, e: &str) -> String {
        match &self.with {
            Some(m) => format!("{m}::model::to_val(&{e})"),
            None => format!("Model::to_val(&{e})"),
        }
    }
    fn heap(&self) -> String {
        match &self.with {
            Some(m) => format!("{m}::model::heap()"),
            None => format!("<{} as Model>::heap()", self.ty.rust),
        }
    }
}

/// Codec modules of the harness: (module, Rust type, Default, variable size).
const CODECS: &[(&str, &str, bool)] = &[
    ("be_u32", "u32", false),
    ("u24", "u32", false),
    ("var_u64", "u64", true),
    ("five", "Vec<u8>", false),
    ("flag", "bool", false),
    ("rev", "Vec<u8>", true),
    ("le_list", "Vec<u16>", true),
];

impl TypeGen {
    pub fn new(seed: u64, prefix: &str) -> TypeGen {
        let mut pool = vec![];
        for (t, d, o) in [
            ("u8", true, true),
            ("u16", true, true),
            ("u32", true, true),
            ("u64", true, true),
            ("u128", true, true),
            ("usize", true, true),
            ("bool", true, true),
            ("NonZeroUsize", false, true),
            ("U128", true, true),
            ("U256", true, true),
            ("Address", true, true),
            ("B256", true, true),
            ("[u8; 4]", true, true),
            ("[u8; 33]", false, true),
            ("FixedBytes<3>", true, true),
        ] {
            pool.push(ty(t, d, o, false));
        }
        for (t, d, o) in [
            ("Bytes", true, true),
            ("Vec<u8>", true, true),
            ("Vec<u16>", true, true),
            ("Vec<Vec<u8>>", true, true),
            ("Vec<bool>", true, true),
            ("Option<u8>", true, true),
            ("Option<Vec<u8>>", true, true),
            ("SmallVec<[u32; 4]>", true, true),
            ("BTreeMap<u16, u32>", true, true),
            ("BTreeSet<u64>", true, true),
            ("BitVectorDynamic", false, false),
            ("(u8, Vec<u8>)", true, true),
        ] {
            pool.push(ty(t, d, o, true));
        }
        let mut nbits: Vec<u64> = vec![0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1024];
        for h in consts::harvested() {
            for d in [h.wrapping_sub(1), *h, h.wrapping_add(1)] {
                if d < 5000 {
                    nbits.push(d);
                }
            }
        }
        nbits.sort_unstable();
        nbits.dedup();
        TypeGen {
            src: Source::random(seed.wrapping_mul(0x9e37_79b9).wrapping_add(77)),
            out: String::new(),
            pool,
            entries: vec![],
            n: 0,
            legacy: vec![],
            nbits,
            prefix: prefix.into(),
        }
    }

    fn name(&mut self) -> String {
        self.n += 1;
        self.out.push_str(MARK);
        format!("{}{}", self.prefix, self.n)
    }

    pub fn leaf(&mut self) -> Ty {
        let i = self.src.below(self.pool.len());
        self.pool[i].clone()
    }

    fn nbits(&mut self) -> u64 {
        let i = self.src.below(self.nbits.len());
        self.nbits[i]
    }

    /// An anonymous type.
    pub fn any(&mut self, depth: usize) -> Ty {
        if depth == 0 || self.src.one_in(4) {
            return self.leaf();
        }
        match self.src.below(13) {
            0 | 1 => {
                let t = self.item(depth - 1);
                Ty { rust: format!("Vec<{}>", t.rust), default: true, ord: t.ord, variable: true, zero: false, weight: t.weight + 1 }
            }
            2 => {
                let t = self.item(depth - 1);
                let n = *self.src.pick(&[1, 2, 3, 4, 8, 16]);
                Ty { rust: format!("SmallVec<[{}; {n}]>", t.rust), default: true, ord: t.ord, variable: true, zero: false, weight: t.weight + 1 }
            }
            3 | 4 => {
                let t = self.any(depth - 1);
                Ty { rust: format!("Option<{}>", t.rust), default: true, variable: true, zero: false, ..t }
            }
            5 => {
                let t = self.any(depth - 1);
                Ty { rust: format!("Arc<{}>", t.rust), ..t }
            }
            6 | 7 => {
                let k = *self.src.pick(&[2usize, 2, 2, 3, 3, 4, 5, 6, 8, 9, 12]);
                let ts: Vec<Ty> = (0..k).map(|_| self.any(if k > 4 { 0 } else { depth - 1 })).collect();
                Ty {
                    rust: format!("({})", ts.iter().map(|t| t.rust.clone()).collect::<Vec<_>>().join(", ")),
                    default: ts.iter().all(|t| t.default),
                    ord: ts.iter().all(|t| t.ord),
                    variable: ts.iter().any(|t| t.variable),
                    zero: ts.iter().all(|t| t.zero),
                    weight: ts.iter().map(|t| t.weight).sum(),
                }
            }
            8 => {
                let (k, v) = (self.key(depth - 1), self.any(depth - 1));
                if k.zero && v.zero {
                    return self.leaf();
                }
                Ty {
                    rust: format!("BTreeMap<{}, {}>", k.rust, v.rust),
                    default: true,
                    ord: v.ord,
                    variable: true,
                    zero: false,
                    weight: k.weight + v.weight,
                }
            }
            9 => {
                let k = self.key(depth - 1);
                if k.zero {
                    return self.leaf();
                }
                Ty { rust: format!("BTreeSet<{}>", k.rust), default: true, variable: true, ..k }
            }
            10 => {
                let n = self.nbits();
                ty(&format!("BitList<{}>", typenum(n)), false, false, true)
            }
            11 => {
                let n = self.nbits();
                ty(&format!("BitVector<{}>", typenum(n)), true, false, false)
            }
            _ => {
                let n = self.nbits().min(2100);
                let z = n == 0;
                if self.src.boolean() {
                    Ty { zero: z, ..ty(&format!("FixedBytes<{n}>"), true, true, false) }
                } else {
                    Ty { zero: z, ..ty(&format!("[u8; {n}]"), n <= 32, true, false) }
                }
            }
        }
    }

    /// A type that is not of zero encoded length.
    fn item(&mut self, depth: usize) -> Ty {
        for _ in 0..20 {
            let t = self.any(depth);
            if !t.zero {
                return t;
            }
        }
        ty("u16", true, true, false)
    }

    fn key(&mut self, depth: usize) -> Ty {
        for _ in 0..20 {
            let t = self.any(depth);
            if t.ord && t.weight < 6 {
                return t;
            }
        }
        ty("u16", true, true, false)
    }

    fn pick(&mut self, variable: bool, depth: usize) -> Ty {
        for _ in 0..50 {
            let t = self.any(depth);
            if t.variable == variable && !t.zero && t.weight < 12 {
                return t;
            }
        }
        if variable {
            ty("Vec<u8>", true, true, true)
        } else {
            ty("u32", true, true, false)
        }
    }

    fn with_default(&mut self, variable: Option<bool>) -> Ty {
        for _ in 0..50 {
            let t = self.any(1);
            if t.default && !t.zero && variable.is_none_or(|v| v == t.variable) {
                return t;
            }
        }
        if variable == Some(false) {
            ty("u16", true, true, false)
        } else {
            ty("Vec<u8>", true, true, true)
        }
    }

    /// A legacy option module for some type; returns (module, field type).
    fn legacy(&mut self) -> (String, Ty) {
        if !self.legacy.is_empty() && self.src.boolean() {
            let i = self.src.below(self.legacy.len());
            return self.legacy[i].clone();
        }
        let t = self.any(2);
        let m = format!("leg_{}{}", self.prefix.to_lowercase(), self.legacy.len());
        let _ = writeln!(self.out, "codec::legacy_codec!({m}, {});", t.rust);
        let f = Ty { rust: format!("Option<{}>", t.rust), default: true, variable: true, zero: false, ..t };
        self.legacy.push((m.clone(), f.clone()));
        (m, f)
    }

    fn codec_field(&mut self) -> F {
        if self.src.boolean() {
            let (m, t) = self.legacy();
            F { with: Some(m), ..F::plain(t) }
        } else {
            let (m, t, v) = *self.src.pick(CODECS);
            F { with: Some(m.into()), ..F::plain(ty(t, true, true, v)) }
        }
    }

    fn derives(&self, default: bool, ord: bool) -> String {
        let mut d = "#[derive(Debug, Clone, PartialEq".to_string();
        if ord {
            d.push_str(", Eq, PartialOrd, Ord");
        }
        if default {
            d.push_str(", Default");
        }
        d.push_str(", Encode, Decode)]\n");
        d
    }

    fn add(&mut self, t: Ty) {
        self.entries.push(t.rust.clone());
        if t.weight < 10 {
            self.pool.push(t);
        }
    }

    /// Struct from fields. `kind`: None = no attribute, Some = struct_behaviour.
    fn emit_struct(&mut self, fields: Vec<F>, transparent: bool, tuple: bool) {
        let name = self.name();
        // The default `Vec` is not a value of the codec `five`.
        let default = fields.iter().all(|f| f.ty.default && f.with.as_deref() != Some("five"));
        let ord = fields.iter().all(|f| f.ty.ord);
        let mut s = self.derives(default, ord);
        if transparent {
            s.push_str("#[ssz(struct_behaviour = \"transparent\")]\n");
        } else if self.src.one_in(3) {
            s.push_str("#[ssz(struct_behaviour = \"container\")]\n");
        }
        let attrs: Vec<String> = fields.iter().map(|f| f.attr(&mut self.src)).collect();
        if tuple {
            let body: Vec<String> = fields.iter().zip(&attrs).map(|(f, a)| format!("{a}pub {}", f.ty.rust)).collect();
            let _ = writeln!(s, "pub struct {name}({});", body.join(", "));
        } else {
            let body: Vec<String> = fields
                .iter()
                .zip(&attrs)
                .enumerate()
                .map(|(i, (f, a))| format!("    {a}pub f{i}: {},\n", f.ty.rust))
                .collect();
            let _ = writeln!(s, "pub struct {name} {{\n{}}}", body.concat());
        }
        let acc = |i: usize| if tuple { format!("{i}") } else { format!("f{i}") };
        let schema: Vec<String> = fields.iter().map(|f| f.field()).collect();
        let from: Vec<String> = fields
            .iter()
            .enumerate()
            .map(|(i, f)| format!("{}: {}", acc(i), f.from_val(&format!("&s[{i}]"))))
            .collect();
        let to: Vec<String> =
            fields.iter().enumerate().map(|(i, f)| f.to_val(&format!("self.{}", acc(i)))).collect();
        let heap: Vec<String> = fields.iter().map(|f| f.heap()).collect();
        let _ = writeln!(
            s,
            "impl Model for {name} {{\n  fn schema() -> Schema {{ Schema::{}(vec![{}]) }}\n  \
             fn from_val(v: &Val) -> Self {{ let s = v.seq(); let _ = s; Self {{ {} }} }}\n  \
             fn to_val(&self) -> Val {{ Val::Seq(vec![{}]) }}\n  \
             fn heap() -> Heap {{ Heap::container(&[{}]) }}\n}}",
            if transparent { "Wrapper" } else { "Container" },
            schema.join(", "),
            from.join(", "),
            to.join(", "),
            heap.join(", ")
        );
        self.out.push_str(&s);
        let live: Vec<&F> = fields.iter().filter(|f| !f.skip_de).collect();
        let variable = live.iter().any(|f| f.ty.variable);
        let zero = live.iter().all(|f| f.ty.zero);
        // One-sided definitions are tested on their own but not nested: nothing round-trips through them.
        let one_sided = fields.iter().any(|f| f.skip_ser != f.skip_de);
        let weight = fields.iter().map(|f| f.ty.weight).sum::<usize>() + 1;
        let t = Ty { rust: name, default, ord, variable, zero, weight };
        if one_sided {
            self.entries.push(t.rust);
        } else {
            self.add(t);
        }
    }

    fn emit_enum(&mut self, bodies: Vec<Ty>, behaviour: &str) {
        let name = self.name();
        let ord = bodies.iter().all(|f| f.ord);
        let mut s = self.derives(false, ord);
        let _ = writeln!(s, "#[ssz(enum_behaviour = \"{behaviour}\")]");
        let vs: Vec<String> =
            bodies.iter().enumerate().map(|(i, b)| format!("V{i}({})", b.rust)).collect();
        let _ = writeln!(s, "pub enum {name} {{ {} }}", vs.join(", "));
        let wrap = |x: &Ty| {
            if behaviour == "union" {
                format!("Some(<{} as Model>::schema())", x.rust)
            } else {
                format!("<{} as Model>::schema()", x.rust)
            }
        };
        let schema: Vec<String> = bodies.iter().map(wrap).collect();
        let from: Vec<String> = bodies
            .iter()
            .enumerate()
            .map(|(i, b)| format!("{i} => {name}::V{i}(<{} as Model>::from_val(b.unwrap()))", b.rust))
            .collect();
        let to: Vec<String> =
            (0..bodies.len()).map(|i| format!("{name}::V{i}(x) => ({i}, Model::to_val(x))")).collect();
        let mut heaps: Vec<String> = bodies.iter().map(|b| format!("<{} as Model>::heap()", b.rust)).collect();
        heaps.dedup();
        let _ = writeln!(
            s,
            "impl Model for {name} {{\n  fn schema() -> Schema {{ Schema::{}(vec![{}]) }}\n  \
             fn from_val(v: &Val) -> Self {{ let (i, b) = v.union(); match i {{ {}, _ => panic!(\"harness: variant\") }} }}\n  \
             fn to_val(&self) -> Val {{ let (i, v): (usize, Val) = match self {{ {} }}; Val::Union(i, Some(Box::new(v))) }}\n  \
             fn heap() -> Heap {{ Heap::any_of(&[{}]) }}\n}}",
            if behaviour == "union" { "Union" } else { "TransEnum" },
            schema.join(", "),
            from.join(", "),
            to.join(", "),
            heaps.join(", ")
        );
        self.out.push_str(&s);
        let weight = bodies.iter().map(|b| b.weight).max().unwrap_or(1) + 1 + bodies.len() / 8;
        self.add(Ty { rust: name, default: false, ord, variable: true, zero: false, weight });
    }

    fn emit_tag(&mut self, n: usize, discriminants: bool) {
        let name = self.name();
        let mut s = self.derives(false, true);
        let _ = writeln!(s, "#[ssz(enum_behaviour = \"tag\")]");
        let vs: Vec<String> = (0..n)
            .map(|i| if discriminants { format!("V{i} = {}", (i * 3 + 7)) } else { format!("V{i}") })
            .collect();
        let _ = writeln!(s, "pub enum {name} {{ {} }}", vs.join(", "));
        let from: Vec<String> = (0..n).map(|i| format!("{i} => {name}::V{i}")).collect();
        let to: Vec<String> = (0..n).map(|i| format!("{name}::V{i} => {i}")).collect();
        let _ = writeln!(
            s,
            "impl Model for {name} {{\n  fn schema() -> Schema {{ Schema::Tag({n}) }}\n  \
             fn from_val(v: &Val) -> Self {{ match v.union().0 {{ {}, _ => panic!(\"harness: variant\") }} }}\n  \
             fn to_val(&self) -> Val {{ Val::Union(match self {{ {} }}, None) }}\n  \
             fn heap() -> Heap {{ Heap::leaf() }}\n}}",
            from.join(", "),
            to.join(", ")
        );
        self.out.push_str(&s);
        self.add(Ty { rust: name, default: false, ord: true, variable: false, zero: false, weight: 1 });
    }

    /// Generic definition with one or two type parameters and the instantiations to test.
    fn emit_generic(&mut self) {
        let name = self.name();
        let two = self.src.boolean();
        let forms = ["T", "Vec<T>", "Option<T>", "Arc<T>", "(T, u16)", "SmallVec<[T; 2]>"];
        let k = 1 + self.src.below(4);
        let mut fields: Vec<String> = vec![];
        for i in 0..k {
            let f = match self.src.below(3) {
                0 => {
                    let t = self.item(1);
                    t.rust
                }
                1 if two => self.src.pick(&["S", "Vec<S>", "Option<S>", "(S, T)"]).to_string(),
                _ => self.src.pick(&forms).to_string(),
            };
            fields.push(format!("f{i}: {f}"));
        }
        fields.push("g: T".into());
        let kind = self.src.below(4);
        let (params, args) = if two { ("<T: Encode + Decode, S: Encode + Decode>", "<T, S>") } else { ("<T: Encode + Decode>", "<T>") };
        if two {
            fields.push("h: S".into());
        }
        let wh = self.src.boolean();
        let head = if wh {
            format!("pub struct {name}{args} where T: Encode + Decode{}", if two { ", S: Encode + Decode" } else { "" })
        } else {
            format!("pub struct {name}{params}")
        };
        let bound = if two { "<T: Model, S: Model>" } else { "<T: Model>" };
        let mut s = "#[derive(Debug, Clone, PartialEq, Encode, Decode)]\n".to_string();
        let tys: Vec<String> = fields.iter().map(|f| f.split_once(": ").unwrap().1.to_string()).collect();
        if kind == 0 {
            // A generic union.
            let vs: Vec<String> = tys.iter().enumerate().map(|(i, t)| format!("V{i}({t})")).collect();
            let head = head.replace("pub struct", "pub enum");
            let _ = writeln!(s, "#[ssz(enum_behaviour = \"union\")]\n{head} {{ {} }}", vs.join(", "));
            let schema: Vec<String> = tys.iter().map(|t| format!("Some(<{t} as Model>::schema())")).collect();
            let from: Vec<String> = tys
                .iter()
                .enumerate()
                .map(|(i, t)| format!("{i} => {name}::V{i}(<{t} as Model>::from_val(b.unwrap()))"))
                .collect();
            let to: Vec<String> =
                (0..tys.len()).map(|i| format!("{name}::V{i}(x) => ({i}, Model::to_val(x))")).collect();
            let heap: Vec<String> = tys.iter().map(|t| format!("<{t} as Model>::heap()")).collect();
            let _ = writeln!(
                s,
                "impl{bound} Model for {name}{args} {{\n  fn schema() -> Schema {{ Schema::Union(vec![{}]) }}\n  \
                 fn from_val(v: &Val) -> Self {{ let (i, b) = v.union(); match i {{ {}, _ => panic!(\"harness: variant\") }} }}\n  \
                 fn to_val(&self) -> Val {{ let (i, v): (usize, Val) = match self {{ {} }}; Val::Union(i, Some(Box::new(v))) }}\n  \
                 fn heap() -> Heap {{ Heap::any_of(&[{}]) }}\n}}",
                schema.join(", "),
                from.join(", "),
                to.join(", "),
                heap.join(", ")
            );
        } else {
            let transparent = kind == 1;
            let (tys, fields) =
                if transparent { (vec![tys[0].clone()], vec![fields[0].clone()]) } else { (tys, fields) };
            let mut body: Vec<String> = fields.iter().map(|f| format!("pub {f}")).collect();
            if transparent {
                s.push_str("#[ssz(struct_behaviour = \"transparent\")]\n");
                body.push(format!(
                    "#[ssz(skip_serializing, skip_deserializing)] pub p: std::marker::PhantomData<{}>",
                    if two { "(T, S)" } else { "T" }
                ));
            }
            let _ = writeln!(s, "{head} {{ {} }}", body.join(", "));
            let names: Vec<String> = fields.iter().map(|f| f.split_once(": ").unwrap().0.to_string()).collect();
            let schema: Vec<String> = tys
                .iter()
                .map(|t| format!("Field {{ schema: <{t} as Model>::schema(), skip_ser: false, skip_de: false }}"))
                .collect();
            let mut from: Vec<String> = names
                .iter()
                .zip(&tys)
                .enumerate()
                .map(|(i, (n, t))| format!("{n}: <{t} as Model>::from_val(&s[{i}])"))
                .collect();
            if transparent {
                from.push("p: std::marker::PhantomData".into());
            }
            let to: Vec<String> = names.iter().map(|n| format!("Model::to_val(&self.{n})")).collect();
            let heap: Vec<String> = tys.iter().map(|t| format!("<{t} as Model>::heap()")).collect();
            let _ = writeln!(
                s,
                "impl{bound} Model for {name}{args} {{\n  fn schema() -> Schema {{ Schema::{}(vec![{}]) }}\n  \
                 fn from_val(v: &Val) -> Self {{ let s = v.seq(); Self {{ {} }} }}\n  \
                 fn to_val(&self) -> Val {{ Val::Seq(vec![{}]) }}\n  \
                 fn heap() -> Heap {{ Heap::container(&[{}]) }}\n}}",
                if transparent { "Wrapper" } else { "Container" },
                schema.join(", "),
                from.join(", "),
                to.join(", "),
                heap.join(", ")
            );
        }
        self.out.push_str(&s);
        // More than one type of each kind: what one uses must not be remembered for the next.
        for v in [false, true, false, true] {
            let a = self.pick(v, 1);
            let other = self.src.boolean();
            let b = self.pick(other, 1);
            let rust = if two { format!("{name}<{}, {}>", a.rust, b.rust) } else { format!("{name}<{}>", a.rust) };
            self.entries.push(rust);
        }
    }

    /// Const and typenum parameters.
    fn emit_sized(&mut self) {
        let name = self.name();
        let n = self.nbits().min(600);
        let m = self.nbits();
        let s = format!(
            "#[derive(Debug, Clone, PartialEq, Encode, Decode)]\n\
             pub struct {name}<const N: usize, B: typenum::Unsigned + Clone> {{ pub a: [u8; N], pub b: BitVector<B>, pub c: BitList<B>, pub d: FixedBytes<N> }}\n\
             impl<const N: usize, B: typenum::Unsigned + Clone + PartialEq + std::fmt::Debug + 'static> Model for {name}<N, B> {{\n  \
             fn schema() -> Schema {{ container(vec![<[u8; N]>::schema(), <BitVector<B>>::schema(), <BitList<B>>::schema(), <FixedBytes<N>>::schema()]) }}\n  \
             fn from_val(v: &Val) -> Self {{ let s = v.seq(); Self {{ a: Model::from_val(&s[0]), b: Model::from_val(&s[1]), c: Model::from_val(&s[2]), d: Model::from_val(&s[3]) }} }}\n  \
             fn to_val(&self) -> Val {{ Val::Seq(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()]) }}\n  \
             fn heap() -> Heap {{ Heap::container(&[Heap::leaf(), Heap::bits(), Heap::bits(), Heap::leaf()]) }}\n}}\n"
        );
        self.out.push_str(&s);
        self.entries.push(format!("{name}<{n}, {}>", typenum(m)));
    }

    /// A generic container that is fixed-size with whatever it is used, of very different sizes.
    fn emit_sized_fixed(&mut self) {
        let name = self.name();
        let s = format!(
            "#[derive(Debug, Clone, PartialEq, Encode, Decode)]\n\
             pub struct {name}<T: Encode + Decode, const N: usize, B: typenum::Unsigned + Clone> {{ pub a: T, pub b: [u8; N], pub c: BitVector<B>, pub d: u16, pub e: FixedBytes<N>, pub f: (T, u8) }}\n\
             impl<T: Model, const N: usize, B: typenum::Unsigned + Clone + PartialEq + std::fmt::Debug + 'static> Model for {name}<T, N, B> {{\n  \
             fn schema() -> Schema {{ container(vec![<T>::schema(), <[u8; N]>::schema(), <BitVector<B>>::schema(), <u16>::schema(), <FixedBytes<N>>::schema(), <(T, u8)>::schema()]) }}\n  \
             fn from_val(v: &Val) -> Self {{ let s = v.seq(); Self {{ a: Model::from_val(&s[0]), b: Model::from_val(&s[1]), c: Model::from_val(&s[2]), d: Model::from_val(&s[3]), e: Model::from_val(&s[4]), f: Model::from_val(&s[5]) }} }}\n  \
             fn to_val(&self) -> Val {{ Val::Seq(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val()]) }}\n  \
             fn heap() -> Heap {{ Heap::container(&[<T as Model>::heap(), Heap::leaf(), Heap::bits(), Heap::leaf(), Heap::leaf(), <(T, u8) as Model>::heap()]) }}\n}}\n"
        );
        self.out.push_str(&s);
        let (n, m) = (self.nbits().min(600), self.nbits());
        for (t, n, m) in [("u8", 3, 1), ("u64", 300, 2100), ("[u8; 257]", n, m), ("(u16, u32)", 256, 8), ("FixedBytes<512>", 1, 9)] {
            self.entries.push(format!("{name}<{t}, {n}, {}>", typenum(m)));
            if t == "u64" {
                self.entries.push(format!("Vec<{name}<{t}, {n}, {}>>", typenum(m)));
            }
        }
    }

    /// Large fields at each place of a container.
    fn emit_large(&mut self, full: bool) {
        let sizes: &[usize] = if full { &[255, 256, 257, 300, 512, 1000, 2048, 4096] } else { &[256, 257, 1000] };
        for (i, n) in sizes.iter().enumerate() {
            for pos in 0..3 {
                for variable in [false, true] {
                    if !full && (i + pos) % 3 != 0 {
                        continue;
                    }
                    let big = match (i + pos) % 4 {
                        0 => ty(&format!("[u8; {n}]"), false, true, false),
                        1 => ty(&format!("BitVector<{}>", typenum(*n as u64 * 8 - 3)), true, false, false),
                        2 => ty(&format!("([u8; {}], u32)", n - 4), false, true, false),
                        _ => ty(&format!("FixedBytes<{n}>"), true, true, false),
                    };
                    let mut fs = vec![
                        F::plain(ty("u16", true, true, false)),
                        F::plain(if variable { ty("Vec<u16>", true, true, true) } else { ty("u8", true, true, false) }),
                        F::plain(ty("u64", true, true, false)),
                    ];
                    fs.insert(pos + usize::from(pos == 2), F::plain(big));
                    self.emit_struct(fs, false, false);
                }
            }
        }
    }

    /// Now and then the type of an earlier field or variant again.
    fn repeated(&mut self, mut tys: Vec<Ty>) -> Vec<Ty> {
        if tys.len() > 1 && self.src.one_in(3) {
            for i in 1..tys.len() {
                if self.src.one_in(2) {
                    tys[i] = tys[self.src.below(i)].clone();
                }
            }
        }
        tys
    }

    fn random_fields(&mut self, n: usize) -> Vec<F> {
        let style = self.src.below(4);
        let tys = (0..n)
            .map(|i| {
                match style {
                    0 => self.pick(false, 1),
                    1 => self.pick(true, 1),
                    2 => self.pick(i % 2 == 0, 1),
                    _ => {
                        let v = self.src.boolean();
                        self.pick(v, 2)
                    }
                }
            })
            .collect();
        self.repeated(tys).into_iter().map(F::plain).collect()
    }

    fn skip(&mut self, f: &mut F, ser: bool, de: bool) {
        if de {
            f.ty = self.with_default(None);
        }
        f.with = None;
        f.skip_ser = ser;
        f.skip_de = de;
    }

    /// One random definition.
    pub fn random_def(&mut self) {
        match self.src.below(20) {
            0..=6 => {
                let n = match self.src.below(6) {
                    0 => self.src.below(3),
                    1..=3 => 2 + self.src.below(6),
                    4 => 8 + self.src.below(5),
                    _ => *self.src.pick(&[0usize, 1, 7, 8, 9, 10, 15, 16, 17, 24, 33]),
                };
                let mut fs = self.random_fields(n);
                for i in 0..fs.len() {
                    match self.src.below(10) {
                        0 => {
                            let mut f = F::plain(fs[i].ty.clone());
                            self.skip(&mut f, true, true);
                            fs[i] = f;
                        }
                        1 | 2 => fs[i] = self.codec_field(),
                        _ => {}
                    }
                }
                if self.src.one_in(8) && !fs.is_empty() {
                    let i = self.src.below(fs.len());
                    let mut f = F::plain(fs[i].ty.clone());
                    let ser = self.src.boolean();
                    self.skip(&mut f, ser, !ser);
                    fs[i] = f;
                }
                self.emit_struct(fs, false, false);
            }
            7..=9 => {
                // Transparent.
                let n = 1 + self.src.below(4);
                let live = self.src.below(n);
                let mut fs = vec![];
                for i in 0..n {
                    let v = self.src.boolean();
                    let mut f = F::plain(self.pick(v, 2));
                    if i != live {
                        self.skip(&mut f, true, true);
                    } else if self.src.one_in(5) {
                        f = self.codec_field();
                    }
                    fs.push(f);
                }
                let tuple = self.src.boolean();
                self.emit_struct(fs, true, tuple);
            }
            10..=13 => {
                let n = match self.src.below(4) {
                    0 => 1 + self.src.below(2),
                    1 | 2 => 2 + self.src.below(5),
                    _ => *self.src.pick(&[8usize, 9, 16, 17, 31, 40]),
                };
                let bodies: Vec<Ty> = (0..n).map(|_| self.any(if n > 6 { 0 } else { 2 })).collect();
                let bodies = self.repeated(bodies);
                self.emit_enum(bodies, "union");
            }
            14 => {
                let n = 1 + self.src.below(12);
                let d = self.src.boolean();
                self.emit_tag(n, d);
            }
            15 | 16 => {
                let n = 1 + self.src.below(5);
                let bodies: Vec<Ty> = (0..n).map(|_| self.pick(true, 2)).collect();
                let bodies = self.repeated(bodies);
                self.emit_enum(bodies, "transparent");
            }
            17 | 18 => self.emit_generic(),
            _ => self.emit_sized(),
        }
    }

    /// Definitions that sweep the dimensions of the derive macros one at a time.
    pub fn sweep(&mut self, full: bool) {
        let v = |r: &str| ty(r, true, true, true);
        let f = |r: &str| ty(r, true, true, false);
        let fixed = ["u8", "u16", "u32", "u64", "[u8; 3]", "bool", "u128", "B256"];
        let var = ["Vec<u8>", "Vec<u16>", "Vec<Vec<u8>>", "Option<u16>", "Bytes"];
        let counts: &[usize] = if full {
            &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 32, 33, 64, 65]
        } else {
            &[0, 1, 2, 3, 8, 9, 13, 33]
        };
        for &n in counts {
            // All fixed, all variable, alternating.
            for style in 0..3 {
                let fs = (0..n)
                    .map(|i| {
                        F::plain(match style {
                            0 => f(fixed[i % fixed.len()]),
                            1 => v(var[i % var.len()]),
                            _ if i % 2 == 0 => v(var[i % var.len()]),
                            _ => f(fixed[i % fixed.len()]),
                        })
                    })
                    .collect();
                self.emit_struct(fs, false, false);
            }
        }
        // One variable field at each position; one fixed field at each position.
        let n = if full { 5 } else { 3 };
        for pos in 0..n {
            for variable in [true, false] {
                let fs = (0..n)
                    .map(|i| {
                        F::plain(if (i == pos) == variable { v(var[i % var.len()]) } else { f(fixed[i % fixed.len()]) })
                    })
                    .collect();
                self.emit_struct(fs, false, false);
            }
        }
        // One attribute at each position, with fixed and variable neighbours.
        let attrs: &[(&str, bool, bool)] = &[
            ("", true, true),
            ("", true, false),
            ("", false, true),
            ("be_u32", false, false),
            ("var_u64", false, false),
            ("five", false, false),
            ("u24", false, false),
            ("legacy", false, false),
        ];
        for (ai, (with, ser, de)) in attrs.iter().enumerate() {
            for pos in 0..3 {
                for variable in [false, true] {
                    if !full && (pos + ai) % 3 != 0 {
                        continue;
                    }
                    let mut fs: Vec<F> = (0..3)
                        .map(|i| F::plain(if variable && i != pos { v(var[i]) } else { f(fixed[i + 1]) }))
                        .collect();
                    if *with == "legacy" {
                        let (m, t) = self.legacy();
                        fs[pos] = F { with: Some(m), ..F::plain(t) };
                    } else if !with.is_empty() {
                        let c = CODECS.iter().find(|c| c.0 == *with).unwrap();
                        fs[pos] = F { with: Some(c.0.into()), ..F::plain(ty(c.1, true, true, c.2)) };
                    } else {
                        // The skipped field is now fixed, now variable.
                        fs[pos] = F {
                            skip_ser: *ser,
                            skip_de: *de,
                            ..F::plain(if variable == (pos == 1) { f("u16") } else { v("Vec<u8>") })
                        };
                    }
                    self.emit_struct(fs, false, false);
                }
            }
        }
        // Wide containers in which some fields are skipped or have a codec.
        if full {
            for n in [4usize, 5, 6, 7, 8, 9, 10, 12, 15, 18, 21, 26, 34] {
                for mixed in [false, true] {
                    let mut fs: Vec<F> = (0..n)
                        .map(|i| {
                            let i = i + self.src.below(3);
                            F::plain(if mixed && self.src.boolean() { v(var[i % var.len()]) } else { f(fixed[i % fixed.len()]) })
                        })
                        .collect();
                    for _ in 0..1 + n / 8 {
                        let i = self.src.below(n);
                        let t = if self.src.boolean() { v(var[i % var.len()]) } else { f(fixed[i % fixed.len()]) };
                        fs[i] = F { skip_ser: true, skip_de: true, ..F::plain(t) };
                    }
                    if self.src.boolean() {
                        let c = *self.src.pick(CODECS);
                        if mixed || !c.2 {
                            let i = self.src.below(n);
                            fs[i] = F { with: Some(c.0.into()), ..F::plain(ty(c.1, true, true, c.2)) };
                        }
                    }
                    self.emit_struct(fs, false, false);
                }
            }
        }
        // All but one skipped; everything skipped; several skipped.
        for live in 0..3 {
            let fs = (0..3)
                .map(|i| F { skip_ser: i != live, skip_de: i != live, ..F::plain(if i % 2 == 0 { v(var[i]) } else { f(fixed[i]) }) })
                .collect();
            self.emit_struct(fs, false, false);
        }
        let fs = (0..3).map(|i| F { skip_ser: true, skip_de: true, ..F::plain(f(fixed[i])) }).collect();
        self.emit_struct(fs, false, false);
        // A field with a codec and a skip.
        self.emit_struct(
            vec![
                F { with: Some("be_u32".into()), skip_ser: true, skip_de: true, ..F::plain(f("u32")) },
                F { with: Some("u24".into()), ..F::plain(f("u32")) },
                F::plain(v("Vec<u8>")),
            ],
            false,
            false,
        );
        // Transparent structs: named and tuple, live field at each position, fixed and variable.
        for tuple in [false, true] {
            for n in 1..=3 {
                for live in 0..n {
                    for variable in [false, true] {
                        if !full && n == 3 && variable != tuple {
                            continue;
                        }
                        let fs = (0..n)
                            .map(|i| F {
                                skip_ser: i != live,
                                skip_de: i != live,
                                ..F::plain(if variable == (i == live) { v(var[i]) } else { f(fixed[i + 1]) })
                            })
                            .collect();
                        self.emit_struct(fs, true, tuple);
                    }
                }
            }
        }
        // Transparent: a different live field on each side, a codec on the live field.
        for tuple in [false, true] {
            for (a, b) in [(0, 1), (1, 0)] {
                for variable in [false, true] {
                    let fs = (0..2)
                        .map(|i| F {
                            skip_ser: i == a,
                            skip_de: i == b,
                            ..F::plain(if variable { v(var[i]) } else { f(fixed[i + 1]) })
                        })
                        .collect();
                    self.emit_struct(fs, true, tuple);
                }
            }
            for c in CODECS {
                if !full && tuple {
                    continue;
                }
                let mut fs = vec![F { with: Some(c.0.into()), ..F::plain(ty(c.1, true, true, c.2)) }];
                self.emit_struct(std::mem::take(&mut fs), true, tuple);
            }
            let (m, t) = self.legacy();
            self.emit_struct(
                vec![
                    F { skip_ser: true, skip_de: true, ..F::plain(f("u16")) },
                    F { with: Some(m), ..F::plain(t) },
                ],
                true,
                tuple,
            );
        }
        // Unions and tags of many sizes.
        let counts: &[usize] = if full { &[1, 2, 3, 4, 8, 9, 16, 17, 32, 33, 64, 65, 127, 128] } else { &[1, 2, 3, 9, 17, 128] };
        for &n in counts {
            let bodies = (0..n).map(|i| if i % 2 == 0 { f(fixed[i % 4]) } else { v(var[i % 2]) }).collect();
            self.emit_enum(bodies, "union");
            self.emit_tag(n, n % 2 == 1);
        }
        for n in 1..=3 {
            let bodies = (0..n).map(|i| v(["BitList<typenum::U5>", "Vec<u32>", "Vec<u8>"][i])).map(|mut t| {
                if t.rust.starts_with("Bit") {
                    t.ord = false;
                    t.default = false;
                }
                t
            });
            self.emit_enum(bodies.collect(), "transparent");
        }
        self.emit_enum(vec![v("Option<u8>"), v("(u8, Vec<u16>)"), v("Vec<u16>"), v("Vec<Vec<u8>>")], "transparent");
        // Types that come again, in every order.
        for pattern in ["aa", "ab", "aab", "aba", "baa", "aaa", "abab", "abba", "cbaabc", "aabbccaabbcc", "abcaaaaaaaaaaaaaa"] {
            let body = |c: char| v(["Vec<u32>", "Vec<u8>", "Option<u16>"][c as usize - 'a' as usize]);
            self.emit_enum(pattern.chars().map(body).collect(), "transparent");
            if full {
                let other = |c: char| v(["Vec<u16>", "BTreeMap<u8, u8>", "Vec<u8>"][c as usize - 'a' as usize]);
                self.emit_enum(pattern.chars().map(other).collect(), "transparent");
                self.emit_enum(pattern.chars().map(body).collect(), "union");
                self.emit_struct(pattern.chars().map(|c| F::plain(body(c))).collect(), false, false);
                let fixed = |c: char| F::plain(f(["u32", "[u8; 4]", "u16"][c as usize - 'a' as usize]));
                self.emit_struct(pattern.chars().map(fixed).collect(), false, false);
            }
        }
        // No struct_behaviour on a unit-like struct.
        self.emit_sized();
        self.emit_sized_fixed();
        self.emit_large(full);
        for _ in 0..if full { 6 } else { 2 } {
            self.emit_generic();
            self.emit_sized();
        }
    }

    /// Source of a function returning the table.
    pub fn finish(mut self, function: &str) -> String {
        let list: Vec<String> = self.entries.iter().map(|e| format!("    codec::entry::<{e}>(),\n")).collect();
        self.out.push_str(MARK);
        let _ = write!(self.out, "pub fn {function}() -> Vec<codec::Entry> {{\n  vec![\n{}  ]\n}}\n", list.concat());
        self.out
    }
}

/// Source text of one module with `defs` random definitions (plus the sweep) and `anon` anonymous types.
pub fn module(seed: u64, prefix: &str, sweep: Option<bool>, defs: usize, anon: usize) -> String {
    let mut g = TypeGen::new(seed, prefix);
    if let Some(full) = sweep {
        g.sweep(full);
    }
    for _ in 0..defs {
        g.random_def();
    }
    for _ in 0..anon {
        let t = g.any(3);
        if !g.entries.contains(&t.rust) {
            g.entries.push(t.rust);
        }
    }
    g.finish("table")
}

/// Source text of unions of every size, and of unions with bodies of many types.
pub fn unions(seed: u64, extra: usize) -> String {
    let mut g = TypeGen::new(seed, "W");
    let f = |r: &str| ty(r, true, true, false);
    let v = |r: &str| ty(r, true, true, true);
    for n in 1..=128usize {
        // Bodies of one, two and any number of bytes, so that neighbours are told apart.
        let bodies = (0..n).map(|i| [f("u8"), v("Vec<u8>"), f("u16"), v("Vec<u16>")][(i + n) % 4].clone()).collect();
        g.emit_enum(bodies, "union");
        g.pool.truncate(27);
    }
    // All variants alike: only the selector tells them apart.
    for (n, t) in [(2, f("u8")), (3, v("Vec<u8>")), (5, f("bool")), (7, v("Option<u8>")), (16, f("[u8; 0]")), (128, v("Bytes"))] {
        g.emit_enum(vec![t; n], "union");
    }
    for i in 0..extra {
        let n = *g.src.pick(&[1usize, 2, 2, 3, 3, 4, 5, 6, 8, 12]);
        let bodies = (0..n).map(|_| g.any(if n > 6 { 1 } else { 2 })).collect();
        g.emit_enum(bodies, "union");
        if i % 4 == 3 {
            let u = g.leaf();
            g.entries.push(format!("Option<{}>", u.rust));
        }
    }
    for k in [1usize, 2, 64, 127, 128] {
        // Unions inside other types.
        for w in ["Vec<U>", "Option<U>", "(U, u8, U)", "Arc<U>", "SmallVec<[U; 2]>", "BTreeMap<u8, U>"] {
            g.entries.push(w.replace('U', &format!("W{k}")));
        }
    }
    g.finish("table")
}
