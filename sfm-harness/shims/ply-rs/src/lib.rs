//! Stand-in for the writing half of ply-rs, ASCII encoding only.
pub mod ply {
    use std::collections::BTreeMap;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Encoding {
        Ascii,
        BinaryBigEndian,
        BinaryLittleEndian,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum ScalarType {
        Char,
        UChar,
        Short,
        UShort,
        Int,
        UInt,
        Float,
        Double,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum PropertyType {
        Scalar(ScalarType),
        List(ScalarType, ScalarType),
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct PropertyDef {
        pub name: String,
        pub data_type: PropertyType,
    }
    impl PropertyDef {
        pub fn new(name: String, data_type: PropertyType) -> Self {
            PropertyDef { name, data_type }
        }
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum Property {
        Char(i8),
        UChar(u8),
        Short(i16),
        UShort(u16),
        Int(i32),
        UInt(u32),
        Float(f32),
        Double(f64),
        ListChar(Vec<i8>),
        ListUChar(Vec<u8>),
        ListShort(Vec<i16>),
        ListUShort(Vec<u16>),
        ListInt(Vec<i32>),
        ListUInt(Vec<u32>),
        ListFloat(Vec<f32>),
        ListDouble(Vec<f64>),
    }
    pub type DefaultElement = BTreeMap<String, Property>;
    /// Named definitions in order of insertion.
    #[derive(Clone, Debug)]
    pub struct KeyMap<V>(pub Vec<(String, V)>);
    impl<V> Default for KeyMap<V> {
        fn default() -> Self {
            KeyMap(vec![])
        }
    }
    pub trait Addable<V> {
        fn add(&mut self, v: V);
    }
    impl Addable<PropertyDef> for KeyMap<PropertyDef> {
        fn add(&mut self, v: PropertyDef) {
            self.0.push((v.name.clone(), v));
        }
    }
    impl Addable<ElementDef> for KeyMap<ElementDef> {
        fn add(&mut self, v: ElementDef) {
            self.0.push((v.name.clone(), v));
        }
    }
    #[derive(Clone, Debug)]
    pub struct ElementDef {
        pub name: String,
        pub count: usize,
        pub properties: KeyMap<PropertyDef>,
    }
    impl ElementDef {
        pub fn new(name: String) -> Self {
            ElementDef { name, count: 0, properties: Default::default() }
        }
    }
    #[derive(Clone, Debug)]
    pub struct Header {
        pub encoding: Encoding,
        pub comments: Vec<String>,
        pub elements: KeyMap<ElementDef>,
    }
    #[derive(Clone, Debug)]
    pub struct Ply<E> {
        pub header: Header,
        pub payload: BTreeMap<String, Vec<E>>,
    }
    impl<E> Ply<E> {
        pub fn new() -> Self {
            Ply { header: Header { encoding: Encoding::Ascii, comments: vec![], elements: Default::default() }, payload: BTreeMap::new() }
        }
    }
    impl<E> Default for Ply<E> {
        fn default() -> Self {
            Self::new()
        }
    }
}
pub mod writer {
    use crate::ply::*;
    use std::io::{Error, ErrorKind, Result, Write};
    pub struct Writer<E>(std::marker::PhantomData<E>);
    fn name(s: ScalarType) -> &'static str {
        match s {
            ScalarType::Char => "char",
            ScalarType::UChar => "uchar",
            ScalarType::Short => "short",
            ScalarType::UShort => "ushort",
            ScalarType::Int => "int",
            ScalarType::UInt => "uint",
            ScalarType::Float => "float",
            ScalarType::Double => "double",
        }
    }
    fn list<T: ToString>(v: &[T]) -> String {
        std::iter::once(v.len().to_string()).chain(v.iter().map(|v| v.to_string())).collect::<Vec<_>>().join(" ")
    }
    fn text(p: &Property) -> String {
        match p {
            Property::Char(v) => v.to_string(),
            Property::UChar(v) => v.to_string(),
            Property::Short(v) => v.to_string(),
            Property::UShort(v) => v.to_string(),
            Property::Int(v) => v.to_string(),
            Property::UInt(v) => v.to_string(),
            Property::Float(v) => v.to_string(),
            Property::Double(v) => v.to_string(),
            Property::ListChar(v) => list(v),
            Property::ListUChar(v) => list(v),
            Property::ListShort(v) => list(v),
            Property::ListUShort(v) => list(v),
            Property::ListInt(v) => list(v),
            Property::ListUInt(v) => list(v),
            Property::ListFloat(v) => list(v),
            Property::ListDouble(v) => list(v),
        }
    }
    fn kind(p: &Property) -> (bool, ScalarType) {
        use ScalarType::*;
        match p {
            Property::Char(_) => (false, Char),
            Property::UChar(_) => (false, UChar),
            Property::Short(_) => (false, Short),
            Property::UShort(_) => (false, UShort),
            Property::Int(_) => (false, Int),
            Property::UInt(_) => (false, UInt),
            Property::Float(_) => (false, Float),
            Property::Double(_) => (false, Double),
            Property::ListChar(_) => (true, Char),
            Property::ListUChar(_) => (true, UChar),
            Property::ListShort(_) => (true, Short),
            Property::ListUShort(_) => (true, UShort),
            Property::ListInt(_) => (true, Int),
            Property::ListUInt(_) => (true, UInt),
            Property::ListFloat(_) => (true, Float),
            Property::ListDouble(_) => (true, Double),
        }
    }
    impl Writer<DefaultElement> {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            Writer(std::marker::PhantomData)
        }
        /// Sets the counts from the payload, as ply-rs does, and writes.
        pub fn write_ply<W: Write>(&self, out: &mut W, ply: &mut Ply<DefaultElement>) -> Result<usize> {
            let bad = |m: String| Error::new(ErrorKind::InvalidInput, m);
            if ply.header.encoding != Encoding::Ascii {
                return Err(bad("the stand-in only writes ASCII".into()));
            }
            for name in ply.payload.keys() {
                if !ply.header.elements.0.iter().any(|(n, _)| n == name) {
                    return Err(bad(format!("no definition of {}", name)));
                }
            }
            let mut s = String::from("ply\nformat ascii 1.0\n");
            for c in &ply.header.comments {
                s += &format!("comment {}\n", c);
            }
            for (n, e) in &mut ply.header.elements.0 {
                e.count = ply.payload.get(n).map_or(0, |p| p.len());
                s += &format!("element {} {}\n", n, e.count);
                for (n, p) in &e.properties.0 {
                    match &p.data_type {
                        PropertyType::Scalar(t) => s += &format!("property {} {}\n", name(*t), n),
                        PropertyType::List(i, t) => s += &format!("property list {} {} {}\n", name(*i), name(*t), n),
                    }
                }
            }
            s += "end_header\n";
            for (n, e) in &ply.header.elements.0 {
                for item in ply.payload.get(n).into_iter().flatten() {
                    let mut parts = vec![];
                    for (n, def) in &e.properties.0 {
                        let p = item.get(n).ok_or_else(|| bad(format!("no {}", n)))?;
                        let fits = match (kind(p), &def.data_type) {
                            ((false, a), PropertyType::Scalar(b)) => a == *b,
                            ((true, a), PropertyType::List(_, b)) => a == *b,
                            _ => false,
                        };
                        if !fits {
                            return Err(bad(format!("{} is not of its type", n)));
                        }
                        parts.push(text(p));
                    }
                    s += &parts.join(" ");
                    s += "\n";
                }
            }
            out.write_all(s.as_bytes())?;
            Ok(s.len())
        }
    }
}
