//! Frozen schema model (spec/schema.json): what every message type looks like.
//! This is the reference model's static part.  It never looks at /repo.
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Card {
    One,
    Opt,
    Vec,
    OptVec,
}
impl Card {
    pub fn required(self) -> bool {
        matches!(self, Card::One | Card::Vec)
    }
    pub fn many(self) -> bool {
        matches!(self, Card::Vec | Card::OptVec)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    Str,
    F64,
    Bool,
    Ref(usize),
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub card: Card,
    pub ty: Ty,
    pub len: Option<(Option<usize>, Option<usize>)>,
    pub pat: Option<String>,
    pub nested: bool,
    pub guard: bool,
}
impl Field {
    pub fn is_attr(&self) -> bool {
        self.name.starts_with('@')
    }
    pub fn is_value(&self) -> bool {
        self.name == "$value"
    }
}

#[derive(Clone, Debug)]
pub enum TypeDef {
    Enum(Vec<String>),
    Struct(Vec<Field>),
}

#[derive(Clone, Debug)]
pub struct Module {
    pub name: String,
    pub header: bool,
    pub root: usize,
    pub root_name: String,
    pub types: Vec<TypeDef>,
    pub type_names: Vec<String>,
}
impl Module {
    pub fn fields(&self, t: usize) -> &[Field] {
        match &self.types[t] {
            TypeDef::Struct(f) => f,
            TypeDef::Enum(_) => &[],
        }
    }
    pub fn is_enum(&self, ty: Ty) -> bool {
        matches!(ty, Ty::Ref(t) if matches!(self.types[t], TypeDef::Enum(_)))
    }
    pub fn is_struct(&self, ty: Ty) -> bool {
        matches!(ty, Ty::Ref(t) if matches!(self.types[t], TypeDef::Struct(_)))
    }
    pub fn codes(&self, ty: Ty) -> &[String] {
        match ty {
            Ty::Ref(t) => match &self.types[t] {
                TypeDef::Enum(c) => c,
                _ => &[],
            },
            _ => &[],
        }
    }
}

pub struct Schema {
    pub modules: BTreeMap<String, Module>,
}

pub fn verif_dir() -> String {
    std::env::var("MXMC_VERIF").unwrap_or_else(|_| "/verif".to_string())
}

impl Schema {
    pub fn load() -> Schema {
        let p = format!("{}/spec/schema.json", verif_dir());
        let v: Value = serde_json::from_str(&std::fs::read_to_string(p).expect("schema"))
            .expect("schema json");
        let mut modules = BTreeMap::new();
        for (mname, m) in v["modules"].as_object().unwrap() {
            let tys = m["types"].as_object().unwrap();
            let names: Vec<String> = tys.keys().cloned().collect();
            let idx = |n: &str| names.iter().position(|x| x == n).unwrap_or_else(|| panic!("{n}"));
            let mut types = vec![];
            for n in &names {
                let t = &tys[n];
                if let Some(c) = t.get("enum") {
                    types.push(TypeDef::Enum(
                        c.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
                    ));
                    continue;
                }
                let mut fs = vec![];
                for f in t["fields"].as_array().unwrap() {
                    let card = match f["card"].as_str().unwrap() {
                        "one" => Card::One,
                        "opt" => Card::Opt,
                        "vec" => Card::Vec,
                        "optvec" => Card::OptVec,
                        o => panic!("{o}"),
                    };
                    let ty = match f["ty"].as_str().unwrap() {
                        "String" => Ty::Str,
                        "f64" => Ty::F64,
                        "bool" => Ty::Bool,
                        o => Ty::Ref(idx(o)),
                    };
                    let (mut len, mut pat, mut nested, mut guard) = (None, None, false, false);
                    for c in f["checks"].as_array().unwrap() {
                        match c["k"].as_str().unwrap() {
                            "len" => {
                                assert!(len.is_none());
                                len = Some((
                                    c["min"].as_u64().map(|x| x as usize),
                                    c["max"].as_u64().map(|x| x as usize),
                                ))
                            }
                            "pat" => {
                                assert!(pat.is_none());
                                pat = Some(c["pattern"].as_str().unwrap().to_string())
                            }
                            "nested" => {
                                nested = true;
                                guard = c.get("guard").and_then(|g| g.as_bool()).unwrap_or(false)
                            }
                            o => panic!("{o}"),
                        }
                    }
                    fs.push(Field {
                        name: f["name"].as_str().unwrap().to_string(),
                        card,
                        ty,
                        len,
                        pat,
                        nested,
                        guard,
                    });
                }
                types.push(TypeDef::Struct(fs));
            }
            let rn = m["roots"][0].as_str().unwrap().to_string();
            modules.insert(
                mname.clone(),
                Module {
                    name: mname.clone(),
                    header: m["kind"].as_str() == Some("header"),
                    root: idx(&rn),
                    root_name: rn,
                    types,
                    type_names: names.clone(),
                },
            );
        }
        Schema { modules }
    }
    pub fn get(&self, m: &str) -> &Module {
        &self.modules[m]
    }
}

/// The specification table of message types: module, short form, full form, XML root, Rust root type.
/// Written down independently of the library's own registry.
pub struct DocType {
    pub module: &'static str,
    pub short: &'static str,
    pub full: &'static str,
    pub element: &'static str,
    pub rust: &'static str,
}
macro_rules! dt {
    ($($m:literal $s:literal $f:literal $e:literal $r:literal;)*) => {
        pub const DOC_TYPES: &[DocType] = &[$(DocType{module:$m,short:$s,full:$f,element:$e,rust:$r}),*];
    };
}
dt! {
 "admi_024_001_01" "admi.024" "admi.024.001.01" "NtfctnOfCrspdc" "NotificationOfCorrespondenceV01";
 "camt_025_001_08" "camt.025" "camt.025.001.08" "Rcpt" "ReceiptV08";
 "camt_029_001_09" "camt.029" "camt.029.001.09" "RsltnOfInvstgtn" "ResolutionOfInvestigationV09";
 "camt_052_001_08" "camt.052" "camt.052.001.08" "BkToCstmrAcctRpt" "BankToCustomerAccountReportV08";
 "camt_053_001_08" "camt.053" "camt.053.001.08" "BkToCstmrStmt" "BankToCustomerStatementV08";
 "camt_054_001_08" "camt.054" "camt.054.001.08" "BkToCstmrDbtCdtNtfctn" "BankToCustomerDebitCreditNotificationV08";
 "camt_055_001_08" "camt.055" "camt.055.001.08" "CstmrPmtCxlReq" "CustomerPaymentCancellationRequestV08";
 "camt_056_001_08" "camt.056" "camt.056.001.08" "FIToFIPmtCxlReq" "FIToFIPaymentCancellationRequestV08";
 "camt_057_001_06" "camt.057" "camt.057.001.06" "NtfctnToRcv" "NotificationToReceiveV06";
 "camt_058_001_08" "camt.058" "camt.058.001.08" "NtfctnToRcvCxlAdvc" "NotificationToReceiveCancellationAdviceV08";
 "camt_060_001_05" "camt.060" "camt.060.001.05" "AcctRptgReq" "AccountReportingRequestV05";
 "camt_105_001_02" "camt.105" "camt.105.001.02" "ChrgsPmtNtfctn" "ChargesPaymentNotificationV02";
 "camt_106_001_02" "camt.106" "camt.106.001.02" "ChrgsPmtReq" "ChargesPaymentRequestV02";
 "camt_107_001_01" "camt.107" "camt.107.001.01" "ChqPresntmntNtfctn" "ChequePresentmentNotificationV01";
 "camt_108_001_01" "camt.108" "camt.108.001.01" "ChqCxlOrStopReq" "ChequeCancellationOrStopRequestV01";
 "camt_109_001_01" "camt.109" "camt.109.001.01" "ChqCxlOrStopRpt" "ChequeCancellationOrStopReportV01";
 "pacs_002_001_10" "pacs.002" "pacs.002.001.10" "FIToFIPmtStsRpt" "FIToFIPaymentStatusReportV10";
 "pacs_003_001_08" "pacs.003" "pacs.003.001.08" "FIToFICstmrDrctDbt" "FIToFICustomerDirectDebitV08";
 "pacs_004_001_09" "pacs.004" "pacs.004.001.09" "PmtRtr" "PaymentReturnV09";
 "pacs_008_001_08" "pacs.008" "pacs.008.001.08" "FIToFICstmrCdtTrf" "FIToFICustomerCreditTransferV08";
 "pacs_009_001_08" "pacs.009" "pacs.009.001.08" "FICdtTrf" "FinancialInstitutionCreditTransferV08";
 "pacs_010_001_03" "pacs.010" "pacs.010.001.03" "FIDrctDbt" "FinancialInstitutionDirectDebitV03";
 "pain_001_001_09" "pain.001" "pain.001.001.09" "CstmrCdtTrfInitn" "CustomerCreditTransferInitiationV09";
 "pain_002_001_10" "pain.002" "pain.002.001.10" "CstmrPmtStsRpt" "CustomerPaymentStatusReportV10";
 "pain_008_001_08" "pain.008" "pain.008.001.08" "CstmrDrctDbtInitn" "CustomerDirectDebitInitiationV08";
}
pub fn doc_type(module: &str) -> Option<&'static DocType> {
    DOC_TYPES.iter().find(|d| d.module == module)
}
/// The header module the library uses for every envelope.
pub const APPHDR: &str = "bah_pacs_008_001_08";
