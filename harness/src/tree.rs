//! Types and values as JSON trees (see spec/Types.tla) from and to the real ones.
use crate::util::*;
use cathlamet::core::data_source::{DataSource, IntermediateDataSource};
use cathlamet::core::types::{Case, Field, Kind, Path, Primitive, Type};
use cathlamet::core::value::PrimitiveValue;
use serde_json::{json, Value};

pub fn text(v: &Value) -> String {
    v.as_array()
        .unwrap()
        .iter()
        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap())
        .collect()
}

pub fn cps(s: &str) -> Value {
    Value::from(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()
}

pub const PRIMS: [(&str, Primitive); 14] = [
    ("bool", Primitive::Bool),
    ("char", Primitive::Char),
    ("u8", Primitive::U8),
    ("u16", Primitive::U16),
    ("u32", Primitive::U32),
    ("u64", Primitive::U64),
    ("u128", Primitive::U128),
    ("i8", Primitive::I8),
    ("i16", Primitive::I16),
    ("i32", Primitive::I32),
    ("i64", Primitive::I64),
    ("i128", Primitive::I128),
    ("f32", Primitive::F32),
    ("f64", Primitive::F64),
];

pub fn to_type(t: &Value) -> Type {
    let kind = match t["k"].as_str().unwrap() {
        "unit" => Kind::Unit,
        "string" => Kind::String,
        "prim" => Kind::Primitive(PRIMS.iter().find(|p| t["p"] == p.0).unwrap().1),
        "tuple" => Kind::Tuple(t["c"].as_array().unwrap().iter().map(|c| Box::new(to_type(c))).collect()),
        "struct" => Kind::Struct(
            t["f"].as_array().unwrap().iter()
                .map(|f| Field { label: text(&f["l"]), typ: Box::new(to_type(&f["t"])) })
                .collect(),
        ),
        "enum" => Kind::Enum(
            t["f"].as_array().unwrap().iter()
                .map(|f| Case { label: text(&f["l"]), typ: Box::new(to_type(&f["t"])) })
                .collect(),
        ),
        _ => panic!("type"),
    };
    Type { kind }
}

pub fn from_type(t: &Type) -> Value {
    match &t.kind {
        Kind::Unit => json!({"k": "unit"}),
        Kind::String => json!({"k": "string"}),
        Kind::Primitive(p) => json!({"k": "prim", "p": PRIMS.iter().find(|q| q.1 == *p).unwrap().0}),
        Kind::Tuple(c) => json!({"k": "tuple", "c": c.iter().map(|x| from_type(x)).collect::<Vec<_>>()}),
        Kind::Struct(f) => json!({"k": "struct", "f": f.iter().map(|x| json!({"l": cps(&x.label), "t": from_type(&x.typ)})).collect::<Vec<_>>()}),
        Kind::Enum(f) => json!({"k": "enum", "f": f.iter().map(|x| json!({"l": cps(&x.label), "t": from_type(&x.typ)})).collect::<Vec<_>>()}),
    }
}

pub fn prim_value(p: &str, b: &[u8]) -> PrimitiveValue {
    use PrimitiveValue as V;
    macro_rules! le { ($v:ident, $t:ty) => { V::$v(<$t>::from_le_bytes(b.try_into().unwrap())) } }
    match p {
        "bool" => V::Bool(b[0] != 0),
        "char" => V::Char(char::from_u32(u32::from_le_bytes(b.try_into().unwrap())).unwrap()),
        "u8" => le!(U8, u8),
        "u16" => le!(U16, u16),
        "u32" => le!(U32, u32),
        "u64" => le!(U64, u64),
        "u128" => le!(U128, u128),
        "i8" => le!(I8, i8),
        "i16" => le!(I16, i16),
        "i32" => le!(I32, i32),
        "i64" => le!(I64, i64),
        "i128" => le!(I128, i128),
        "f32" => le!(F32, f32),
        "f64" => le!(F64, f64),
        _ => panic!("prim"),
    }
}

pub fn fill(ds: &mut IntermediateDataSource, t: &Value, v: &Value, path: &Path) {
    match t["k"].as_str().unwrap() {
        "unit" => (),
        "string" => ds.add_string(path, &text(&v["s"])),
        "prim" => ds.add_primitive(path, prim_value(t["p"].as_str().unwrap(), &bytes(&v["b"]))),
        "enum" => {
            let i = int(v, "i") as usize;
            ds.add_case_tag(path, i);
            fill(ds, &t["f"][i]["t"], &v["v"], &path.with_component(i));
        }
        k => {
            for (i, c) in v["c"].as_array().unwrap().iter().enumerate() {
                let ct = if k == "tuple" { &t["c"][i] } else { &t["f"][i]["t"] };
                fill(ds, ct, c, &path.with_component(i));
            }
        }
    }
}

pub fn source(t: &Value, v: &Value) -> IntermediateDataSource {
    let mut ds = IntermediateDataSource::new();
    fill(&mut ds, t, v, &Path::create_empty());
    ds
}

pub fn get_prim<D: DataSource>(ds: &D, p: &str, path: &Path) -> Vec<u8> {
    match p {
        "bool" => vec![ds.get_bool(path) as u8],
        "char" => (ds.get_char(path) as u32).to_le_bytes().to_vec(),
        "u8" => ds.get_u8(path).to_le_bytes().to_vec(),
        "u16" => ds.get_u16(path).to_le_bytes().to_vec(),
        "u32" => ds.get_u32(path).to_le_bytes().to_vec(),
        "u64" => ds.get_u64(path).to_le_bytes().to_vec(),
        "u128" => ds.get_u128(path).to_le_bytes().to_vec(),
        "i8" => ds.get_i8(path).to_le_bytes().to_vec(),
        "i16" => ds.get_i16(path).to_le_bytes().to_vec(),
        "i32" => ds.get_i32(path).to_le_bytes().to_vec(),
        "i64" => ds.get_i64(path).to_le_bytes().to_vec(),
        "i128" => ds.get_i128(path).to_le_bytes().to_vec(),
        "f32" => ds.get_f32(path).to_le_bytes().to_vec(),
        "f64" => ds.get_f64(path).to_le_bytes().to_vec(),
        _ => panic!("prim"),
    }
}

/// The value a data source holds, read leaf by leaf as the type says
pub fn read<D: DataSource>(ds: &D, t: &Value, path: &Path) -> Value {
    let bad = || json!({"k": "panic"});
    match t["k"].as_str().unwrap() {
        "unit" => json!({"k": "unit"}),
        "string" => attempt(|| {
            let b = ds.get_bytes(path);
            if ds.get_length(path) != b.len() {
                return json!({"k": "length"});
            }
            match std::str::from_utf8(b) {
                Ok(s) => json!({"k": "str", "s": cps(s)}),
                Err(_) => json!({"k": "utf8", "b": hex(&b[..b.len().min(64)])}),
            }
        })
        .unwrap_or_else(bad),
        "prim" => attempt(|| json!({"k": "prim", "b": get_prim(ds, t["p"].as_str().unwrap(), path)})).unwrap_or_else(bad),
        "enum" => match attempt(|| ds.get_case_tag(path)) {
            None => bad(),
            Some(i) if i >= t["f"].as_array().unwrap().len() => json!({"k": "tag", "i": i as u32 as i32}),
            Some(i) => json!({"k": "case", "i": i, "v": read(ds, &t["f"][i]["t"], &path.with_component(i))}),
        },
        k => {
            let cs = if k == "tuple" { t["c"].as_array().unwrap() } else { t["f"].as_array().unwrap() };
            let out: Vec<Value> = cs.iter().enumerate()
                .map(|(i, c)| read(ds, if k == "tuple" { c } else { &c["t"] }, &path.with_component(i)))
                .collect();
            json!({"k": "agg", "c": out})
        }
    }
}
