//! A serializer that insists on exact announced lengths and fails after a given number of calls.
use serde::ser::*;
use std::cell::RefCell;
use std::fmt;

#[derive(Debug)]
pub struct Fail;
impl fmt::Display for Fail {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("out of budget")
    }
}
impl std::error::Error for Fail {}
impl Error for Fail {
    fn custom<T: fmt::Display>(m: T) -> Self {
        panic!("serializer error made up: {m}")
    }
}

pub struct Out {
    pub s: String,
    pub left: usize,
    failed: bool,
}

/// The JSON text the calls stand for; Err when the budget of calls ran out.
pub fn run<T: Serialize + ?Sized>(v: &T, budget: usize) -> (Result<(), Fail>, String) {
    let o = RefCell::new(Out { s: String::new(), left: budget, failed: false });
    let r = v.serialize(Ser(&o));
    (r, o.into_inner().s)
}

#[derive(Clone, Copy)]
pub struct Ser<'a>(&'a RefCell<Out>);
pub struct Comp<'a> {
    o: Ser<'a>,
    announced: Option<usize>,
    n: usize,
    close: char,
}
impl<'a> Ser<'a> {
    fn put(self, s: &str) -> Result<(), Fail> {
        let mut o = self.0.borrow_mut();
        assert!(!o.failed, "call after a failure of the serializer");
        if o.left == 0 {
            o.failed = true;
            return Err(Fail);
        }
        o.left -= 1;
        o.s.push_str(s);
        Ok(())
    }
    fn comp(self, announced: Option<usize>, open: &str, close: char) -> Result<Comp<'a>, Fail> {
        self.put(open)?;
        Ok(Comp { o: self, announced, n: 0, close })
    }
}
impl Comp<'_> {
    fn item(&mut self) -> Result<(), Fail> {
        self.n += 1;
        if self.n > 1 {
            self.o.0.borrow_mut().s.push(',');
        }
        Ok(())
    }
    fn done(self) -> Result<(), Fail> {
        if let Some(a) = self.announced {
            assert_eq!(a, self.n, "announced length");
        }
        self.o.put(&self.close.to_string())
    }
}
macro_rules! no {
    ($($m:ident: $t:ty),*) => { $(fn $m(self, _: $t) -> Result<(), Fail> { panic!(stringify!($m)) })* };
}
impl<'a> Serializer for Ser<'a> {
    type Ok = ();
    type Error = Fail;
    type SerializeSeq = Comp<'a>;
    type SerializeTuple = Comp<'a>;
    type SerializeTupleStruct = Impossible<(), Fail>;
    type SerializeTupleVariant = Impossible<(), Fail>;
    type SerializeMap = Comp<'a>;
    type SerializeStruct = Impossible<(), Fail>;
    type SerializeStructVariant = Impossible<(), Fail>;
    no!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u8: u8, serialize_u16: u16,
        serialize_f32: f32, serialize_f64: f64, serialize_char: char, serialize_bytes: &[u8], serialize_unit_struct: &'static str);
    fn serialize_u32(self, v: u32) -> Result<(), Fail> {
        self.put(&v.to_string())
    }
    fn serialize_u64(self, v: u64) -> Result<(), Fail> {
        self.put(&v.to_string())
    }
    fn serialize_str(self, v: &str) -> Result<(), Fail> {
        self.put(&serde_json::to_string(v).unwrap())
    }
    fn serialize_none(self) -> Result<(), Fail> {
        panic!("none")
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Fail> {
        panic!("some")
    }
    fn serialize_unit(self) -> Result<(), Fail> {
        panic!("unit")
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Fail> {
        panic!("unit variant")
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Fail> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Fail> {
        panic!("newtype variant")
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Comp<'a>, Fail> {
        self.comp(len, "[", ']')
    }
    fn serialize_tuple(self, len: usize) -> Result<Comp<'a>, Fail> {
        self.comp(Some(len), "[", ']')
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Fail> {
        panic!("tuple struct")
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Fail> {
        panic!("tuple variant")
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Comp<'a>, Fail> {
        self.comp(len, "{", '}')
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Fail> {
        panic!("struct")
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Fail> {
        panic!("struct variant")
    }
}
impl SerializeSeq for Comp<'_> {
    type Ok = ();
    type Error = Fail;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fail> {
        self.item()?;
        v.serialize(self.o)
    }
    fn end(self) -> Result<(), Fail> {
        self.done()
    }
}
impl SerializeTuple for Comp<'_> {
    type Ok = ();
    type Error = Fail;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fail> {
        self.item()?;
        v.serialize(self.o)
    }
    fn end(self) -> Result<(), Fail> {
        self.done()
    }
}
impl SerializeMap for Comp<'_> {
    type Ok = ();
    type Error = Fail;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Fail> {
        self.item()?;
        k.serialize(self.o)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fail> {
        self.o.0.borrow_mut().s.push(':');
        v.serialize(self.o)
    }
    fn end(self) -> Result<(), Fail> {
        self.done()
    }
}

/// A writer that takes a limited number of bytes; it refuses the write that does not fit, and must not be used afterwards.
pub struct Limited {
    pub s: String,
    pub left: usize,
    pub failed: bool,
}
impl fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.is_empty() {
            return Ok(());
        }
        assert!(!self.failed, "write after a failed write");
        if s.len() > self.left {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.s.push_str(s);
        Ok(())
    }
}
/// The output must be `want`, the error of a writer that is too small must be handed on.
pub fn limited(what: &str, want: &str, budget: usize, a: fmt::Arguments<'_>) {
    let mut w = Limited { s: String::new(), left: budget, failed: false };
    let r = fmt::write(&mut w, a);
    assert!(want.starts_with(&w.s), "{what}: not a prefix");
    assert_eq!(r.is_ok(), want.len() <= budget, "{what}: result with room for {budget} of {} bytes", want.len());
}
