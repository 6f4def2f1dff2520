//! Everything the checks share: the library instance, the reference model, pattern generators.
use crate::model::Model;
use crate::xmlmeta::*;
use rlibphonenumber::PhoneNumberUtil;

pub struct Env {
    pub lib: PhoneNumberUtil,
    pub model: Model,
    pub ccs: Vec<i32>,
    /// calling codes with more than one region
    pub shared_ccs: Vec<i32>,
    pub regions: Vec<String>,
    /// the shipped plan; some laws need what it looks like
    pub shipped: bool,
}
pub const XML: &str = "/repo/resources/PhoneNumberMetadata.xml";

impl Env {
    pub fn new() -> Env {
        let terrs = load_file(XML);
        Env { shipped: true, ..Env::with(PhoneNumberUtil::new(), terrs) }
    }
    pub fn with(lib: PhoneNumberUtil, terrs: Vec<Terr>) -> Env {
        let model = Model::new(terrs);
        let ccs: Vec<i32> = model.cc_regions.keys().copied().collect();
        let mut shared_ccs: Vec<i32> = model.cc_regions.iter().filter(|x| x.1.len() > 1).map(|x| *x.0).collect();
        if shared_ccs.is_empty() {
            shared_ccs = model.cc_regions.iter().filter(|x| x.1[0] != "001").map(|x| *x.0).collect();
        }
        let regions = model.regions.clone();
        Env { lib, model, ccs, shared_ccs, regions, shipped: false }
    }
    pub fn terrs(&self) -> &[Terr] {
        &self.model.terrs
    }
}
