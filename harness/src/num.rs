//! Plain phone-number value used by cases and by the model, convertible to the library's type.
use rlibphonenumber::{CountryCodeSource, PhoneNumber};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Src {
    Unspecified,
    Plus,
    Idd,
    NoPlus,
    Default,
}
pub const ALL_SRC: [Src; 5] = [Src::Unspecified, Src::Plus, Src::Idd, Src::NoPlus, Src::Default];
impl Src {
    pub fn to_lib(self) -> CountryCodeSource {
        match self {
            Src::Unspecified => CountryCodeSource::UNSPECIFIED,
            Src::Plus => CountryCodeSource::FROM_NUMBER_WITH_PLUS_SIGN,
            Src::Idd => CountryCodeSource::FROM_NUMBER_WITH_IDD,
            Src::NoPlus => CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN,
            Src::Default => CountryCodeSource::FROM_DEFAULT_COUNTRY,
        }
    }
    pub fn from_lib(s: CountryCodeSource) -> Src {
        match s {
            CountryCodeSource::UNSPECIFIED => Src::Unspecified,
            CountryCodeSource::FROM_NUMBER_WITH_PLUS_SIGN => Src::Plus,
            CountryCodeSource::FROM_NUMBER_WITH_IDD => Src::Idd,
            CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => Src::NoPlus,
            CountryCodeSource::FROM_DEFAULT_COUNTRY => Src::Default,
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Num {
    pub cc: i32,
    pub nn: u64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub ext: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub ilz: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub nlz: Option<i32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub raw: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub src: Option<Src>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub carrier: Option<String>,
}

impl Num {
    /// number whose national significant number is the digit string `nsn`
    pub fn from_nsn(cc: i32, nsn: &str) -> Num {
        let mut n = Num { cc, nn: nsn.parse().unwrap_or(0), ..Default::default() };
        n.set_zeros(nsn);
        n
    }
    pub fn set_zeros(&mut self, nsn: &str) {
        let z = nsn.bytes().take_while(|b| *b == b'0').count();
        if nsn.len() >= 2 && z > 0 {
            let z = if z == nsn.len() { z - 1 } else { z };
            self.ilz = Some(true);
            if z > 1 {
                self.nlz = Some(z as i32);
            }
        }
    }
    pub fn zeros(&self) -> i32 {
        if self.ilz == Some(true) { self.nlz.unwrap_or(1).max(0) } else { 0 }
    }
    pub fn nsn(&self) -> String {
        format!("{}{}", "0".repeat(self.zeros() as usize), self.nn)
    }
    pub fn ext_str(&self) -> &str {
        self.ext.as_deref().unwrap_or("")
    }
    pub fn raw_str(&self) -> &str {
        self.raw.as_deref().unwrap_or("")
    }
    pub fn carrier_str(&self) -> &str {
        self.carrier.as_deref().unwrap_or("")
    }
    /// The identifying fields in canonical form.
    pub fn core(&self) -> (i32, u64, String, i32) {
        (self.cc, self.nn, self.ext_str().to_string(), self.zeros())
    }
    pub fn plain(&self) -> Num {
        Num { raw: None, src: None, carrier: None, ..self.clone() }
    }
    pub fn to_lib(&self) -> PhoneNumber {
        let mut p = PhoneNumber::new();
        p.set_country_code(self.cc);
        p.set_national_number(self.nn);
        if let Some(e) = &self.ext {
            p.set_extension(e.clone());
        }
        if let Some(b) = self.ilz {
            p.set_italian_leading_zero(b);
        }
        if let Some(n) = self.nlz {
            p.set_number_of_leading_zeros(n);
        }
        if let Some(r) = &self.raw {
            p.set_raw_input(r.clone());
        }
        if let Some(s) = self.src {
            p.set_country_code_source(s.to_lib());
        }
        if let Some(c) = &self.carrier {
            p.set_preferred_domestic_carrier_code(c.clone());
        }
        p
    }
    pub fn from_lib(p: &PhoneNumber) -> Num {
        Num {
            cc: p.country_code(),
            nn: p.national_number(),
            ext: p.has_extension().then(|| p.extension().to_string()),
            ilz: p.has_italian_leading_zero().then(|| p.italian_leading_zero()),
            nlz: p.has_number_of_leading_zeros().then(|| p.number_of_leading_zeros()),
            raw: p.has_raw_input().then(|| p.raw_input().to_string()),
            src: p.has_country_code_source().then(|| Src::from_lib(p.country_code_source())),
            carrier: p.has_preferred_domestic_carrier_code().then(|| p.preferred_domestic_carrier_code().to_string()),
        }
    }
}
