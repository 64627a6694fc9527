//! The implementation under test, behind one small trait.  Only public API of mx-message is used:
//! MxMessage / Document for the 25 registered types, serde on the root structs for the variant
//! document modules and the header modules.
use refmodel::schema::*;
use mx_message::mx_envelope::{Document, MxMessage};
use mx_message::parse_result::{ErrorCollector, ParserConfig};
use mx_message::validation::Validate;
use serde_json::Value;
use std::any::Any;

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        format!("PANIC: {m}")
    })
}
pub fn gres<T, E: std::fmt::Display>(f: impl FnOnce() -> Result<T, E>) -> Result<T, String> {
    match guard(f) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(p),
    }
}

pub trait Inst: Send + Sync {
    fn validate(&self, path: &str, c: &ParserConfig, col: &mut ErrorCollector);
    fn json(&self) -> Result<Value, String>;
    fn xml(&self) -> Result<String, String>;
    fn same(&self, o: &dyn Inst) -> bool;
    fn any(&self) -> &dyn Any;
    fn dbg(&self) -> String;
}

pub fn doc_validate(d: &Document, path: &str, c: &ParserConfig, col: &mut ErrorCollector) {
    macro_rules! go { ($($v:ident)*) => { match d { $(Document::$v(x) => x.validate(path, c, col)),* } } }
    go!(Pacs008 Pacs002 Pacs003 Pacs004 Pacs009 Pacs010 Pain001 Pain002 Pain008 Camt025 Camt029 Camt052
        Camt053 Camt054 Camt055 Camt056 Camt058 Camt057 Camt060 Camt105 Camt106 Camt107 Camt108 Camt109 Admi024)
}
pub fn doc_variant(d: &Document) -> &'static str {
    match d {
        Document::Pacs008(_) => "pacs.008",
        Document::Pacs002(_) => "pacs.002",
        Document::Pacs003(_) => "pacs.003",
        Document::Pacs004(_) => "pacs.004",
        Document::Pacs009(_) => "pacs.009",
        Document::Pacs010(_) => "pacs.010",
        Document::Pain001(_) => "pain.001",
        Document::Pain002(_) => "pain.002",
        Document::Pain008(_) => "pain.008",
        Document::Camt025(_) => "camt.025",
        Document::Camt029(_) => "camt.029",
        Document::Camt052(_) => "camt.052",
        Document::Camt053(_) => "camt.053",
        Document::Camt054(_) => "camt.054",
        Document::Camt055(_) => "camt.055",
        Document::Camt056(_) => "camt.056",
        Document::Camt057(_) => "camt.057",
        Document::Camt058(_) => "camt.058",
        Document::Camt060(_) => "camt.060",
        Document::Camt105(_) => "camt.105",
        Document::Camt106(_) => "camt.106",
        Document::Camt107(_) => "camt.107",
        Document::Camt108(_) => "camt.108",
        Document::Camt109(_) => "camt.109",
        Document::Admi024(_) => "admi.024",
    }
}

impl Inst for MxMessage {
    fn validate(&self, path: &str, c: &ParserConfig, col: &mut ErrorCollector) {
        doc_validate(&self.document, path, c, col)
    }
    fn json(&self) -> Result<Value, String> {
        let s = gres(|| self.to_json())?;
        refmodel::jsonr::parse(&s).map_err(|e| format!("to_json output is not JSON: {e}"))
    }
    fn xml(&self) -> Result<String, String> {
        gres(|| self.to_xml())
    }
    fn same(&self, o: &dyn Inst) -> bool {
        o.any().downcast_ref::<MxMessage>() == Some(self)
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn dbg(&self) -> String {
        format!("{self:?}")
    }
}

struct Wrap<T>(T, String);
impl<T> Inst for Wrap<T>
where
    T: Validate + serde::Serialize + PartialEq + std::fmt::Debug + Send + Sync + 'static,
{
    fn validate(&self, path: &str, c: &ParserConfig, col: &mut ErrorCollector) {
        self.0.validate(path, c, col)
    }
    fn json(&self) -> Result<Value, String> {
        gres(|| serde_json::to_value(&self.0))
    }
    fn xml(&self) -> Result<String, String> {
        gres(|| quick_xml::se::to_string_with_root(&self.1, &self.0))
    }
    fn same(&self, o: &dyn Inst) -> bool {
        o.any().downcast_ref::<Wrap<T>>().map(|x| &x.0) == Some(&self.0)
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn dbg(&self) -> String {
        format!("{:?}", self.0)
    }
}

type Mk = fn(&str, &str) -> Result<Box<dyn Inst>, String>;
pub struct StructTarget {
    pub module: &'static str,
    /// XML root tag used
    pub tag: &'static str,
    json: Mk,
    xml: Mk,
}
macro_rules! st {
    ($($kind:ident $module:ident $root:ident $tag:literal;)*) => {
        pub const STRUCTS: &[StructTarget] = &[$(StructTarget {
            module: stringify!($module),
            tag: $tag,
            json: |s, t| {
                let v: mx_message::$kind::$module::$root = gres(|| serde_json::from_str(s))?;
                Ok(Box::new(Wrap(v, t.to_string())))
            },
            xml: |s, t| {
                let v: mx_message::$kind::$module::$root = gres(|| quick_xml::de::from_str(s))?;
                Ok(Box::new(Wrap(v, t.to_string())))
            },
        }),*];
    };
}
st! {
    document pacs_008_001_08_stp FIToFICustomerCreditTransferV08 "FIToFICstmrCdtTrf";
    document pacs_009_001_08_adv FinancialInstitutionCreditTransferV08 "FICdtTrf";
    document pacs_009_001_08_cov FinancialInstitutionCreditTransferV08 "FICdtTrf";
    document pacs_010_001_03_mc FinancialInstitutionDirectDebitV03 "FIDrctDbt";
    document camt_105_001_02_mc ChargesPaymentNotificationV02 "ChrgsPmtNtfctn";
    document camt_106_001_02_mc ChargesPaymentRequestV02 "ChrgsPmtReq";
    header bah_admi_024_001_01 BusinessApplicationHeaderV02 "AppHdr";
    header bah_camt_025_001_08 BusinessApplicationHeaderV02 "AppHdr";
    header bah_camt_029_001 BusinessApplicationHeaderV02 "AppHdr";
    header bah_camt_052_001_08 BusinessApplicationHeaderV02 "AppHdr";
    header bah_camt_053_001_08 BusinessApplicationHeaderV02 "AppHdr";
    header bah_camt_054_001 BusinessApplicationHeaderV02 "AppHdr";
    header bah_camt_055_001_08 BusinessApplicationHeaderV02 "AppHdr";
    header bah_camt_056_001_08 BusinessApplicationHeaderV02 "AppHdr";
    header bah_camt_057_001_06 BusinessApplicationHeaderV02 "AppHdr";
    header bah_camt_058_001_08 BusinessApplicationHeaderV02 "AppHdr";
    header bah_camt_060_001_05 BusinessApplicationHeaderV02 "AppHdr";
    header bah_camt_105_001_02 BusinessApplicationHeaderV02 "AppHdr";
    header bah_camt_105_001_02_mc BusinessApplicationHeaderV02 "AppHdr";
    header bah_camt_106_001_02 BusinessApplicationHeaderV02 "AppHdr";
    header bah_camt_106_001_02_mc BusinessApplicationHeaderV02 "AppHdr";
    header bah_camt_107_001_01 BusinessApplicationHeaderV02 "AppHdr";
    header bah_camt_108_001_01 BusinessApplicationHeaderV02 "AppHdr";
    header bah_camt_109_001_01 BusinessApplicationHeaderV02 "AppHdr";
    header bah_pacs_002_001_10 BusinessApplicationHeaderV02 "AppHdr";
    header bah_pacs_003_001_08 BusinessApplicationHeaderV02 "AppHdr";
    header bah_pacs_004_001_09 BusinessApplicationHeaderV02 "AppHdr";
    header bah_pacs_008_001_08 BusinessApplicationHeaderV02 "AppHdr";
    header bah_pacs_008_001_08_stp BusinessApplicationHeaderV02 "AppHdr";
    header bah_pacs_009_001_08 BusinessApplicationHeaderV02 "AppHdr";
    header bah_pacs_009_001_08_adv BusinessApplicationHeaderV02 "AppHdr";
    header bah_pacs_009_001_08_cov BusinessApplicationHeaderV02 "AppHdr";
    header bah_pacs_010_001_03 BusinessApplicationHeaderV02 "AppHdr";
    header bah_pacs_010_001_03_mc BusinessApplicationHeaderV02 "AppHdr";
    header bah_pain_001_001_09 BusinessApplicationHeaderV02 "AppHdr";
    header bah_pain_002_001_10 BusinessApplicationHeaderV02 "AppHdr";
    header bah_pain_008_001_08 BusinessApplicationHeaderV02 "AppHdr";
}

/// A target: a module, either embedded in an MxMessage or standing alone.
#[derive(Clone, Copy)]
pub enum Target {
    Mx(&'static DocType),
    St(&'static StructTarget),
}
impl Target {
    pub fn all_docs() -> Vec<Target> {
        DOC_TYPES.iter().map(Target::Mx).collect()
    }
    pub fn variants() -> Vec<Target> {
        STRUCTS.iter().filter(|s| s.tag != "AppHdr").map(Target::St).collect()
    }
    pub fn headers() -> Vec<Target> {
        STRUCTS.iter().filter(|s| s.tag == "AppHdr").map(Target::St).collect()
    }
    pub fn all() -> Vec<Target> {
        let mut v = Self::all_docs();
        v.extend(STRUCTS.iter().map(Target::St));
        v
    }
    pub fn by_module(m: &str) -> Option<Target> {
        Self::all().into_iter().find(|t| t.module() == m)
    }
    pub fn module(&self) -> &'static str {
        match self {
            Target::Mx(d) => d.module,
            Target::St(s) => s.module,
        }
    }
    pub fn tag(&self) -> &'static str {
        match self {
            Target::Mx(d) => d.element,
            Target::St(s) => s.tag,
        }
    }
    /// JSON text carrying `doc` (and `hdr` for whole messages)
    pub fn wrap_json(&self, hdr: &Value, doc: &Value) -> String {
        match self {
            Target::Mx(d) => {
                let mut o = serde_json::Map::new();
                o.insert("AppHdr".into(), hdr.clone());
                let mut i = serde_json::Map::new();
                i.insert(d.element.into(), doc.clone());
                o.insert("Document".into(), Value::Object(i));
                Value::Object(o).to_string()
            }
            Target::St(_) => doc.to_string(),
        }
    }
    pub fn wrap_xml(&self, hdr: &str, doc: &str) -> String {
        match self {
            Target::Mx(_) => refmodel::tree::envelope(hdr, doc),
            Target::St(_) => doc.to_string(),
        }
    }
    pub fn from_json(&self, s: &str) -> Result<Box<dyn Inst>, String> {
        match self {
            Target::Mx(_) => Ok(Box::new(gres(|| MxMessage::from_json(s))?)),
            Target::St(t) => (t.json)(s, t.tag),
        }
    }
    pub fn from_xml(&self, s: &str) -> Result<Box<dyn Inst>, String> {
        match self {
            Target::Mx(_) => Ok(Box::new(gres(|| MxMessage::from_xml(s))?)),
            Target::St(t) => (t.xml)(s, t.tag),
        }
    }
    /// the document part of a JSON value produced by the library
    pub fn doc_json<'a>(&self, v: &'a Value) -> &'a Value {
        match self {
            Target::Mx(d) => &v["Document"][d.element],
            Target::St(_) => v,
        }
    }
}
