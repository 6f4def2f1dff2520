//! Calls into the library, with answers translated to the model's vocabulary.
use crate::model::{F, L, M, PErr, T};
use crate::num::Num;
use rlibphonenumber::*;

pub fn perr(e: &ParseError) -> PErr {
    match e {
        ParseError::InvalidCountryCode => PErr::InvalidCountry,
        ParseError::NotANumber(_) => PErr::NotANumber,
        ParseError::TooShortAfterIdd => PErr::TooShortAfterIdd,
        ParseError::TooShortNsn => PErr::TooShort,
        ParseError::TooLongNsn => PErr::TooLong,
    }
}
pub fn parse(u: &PhoneNumberUtil, t: &str, r: &str) -> Result<Num, PErr> {
    u.parse(t, r).map(|n| Num::from_lib(&n)).map_err(|e| perr(&e))
}
pub fn parse_keep(u: &PhoneNumberUtil, t: &str, r: &str) -> Result<Num, PErr> {
    u.parse_and_keep_raw_input(t, r).map(|n| Num::from_lib(&n)).map_err(|e| perr(&e))
}
pub fn f(f: F) -> PhoneNumberFormat {
    match f {
        F::E164 => PhoneNumberFormat::E164,
        F::Intl => PhoneNumberFormat::International,
        F::Nat => PhoneNumberFormat::National,
        F::Rfc => PhoneNumberFormat::RFC3966,
    }
}
pub fn format(u: &PhoneNumberUtil, n: &Num, k: F) -> String {
    u.format(&n.to_lib(), f(k)).into_owned()
}
pub fn ty(t: PhoneNumberType) -> T {
    match t {
        PhoneNumberType::FixedLine => T::FixedLine,
        PhoneNumberType::Mobile => T::Mobile,
        PhoneNumberType::FixedLineOrMobile => T::FixedOrMobile,
        PhoneNumberType::TollFree => T::TollFree,
        PhoneNumberType::PremiumRate => T::Premium,
        PhoneNumberType::SharedCost => T::Shared,
        PhoneNumberType::VoIP => T::Voip,
        PhoneNumberType::PersonalNumber => T::Personal,
        PhoneNumberType::Pager => T::Pager,
        PhoneNumberType::UAN => T::Uan,
        PhoneNumberType::VoiceMail => T::Voicemail,
        PhoneNumberType::Unknown => T::Unknown,
    }
}
pub const LIB_TYPES: [PhoneNumberType; 12] = [
    PhoneNumberType::FixedLine,
    PhoneNumberType::Mobile,
    PhoneNumberType::FixedLineOrMobile,
    PhoneNumberType::TollFree,
    PhoneNumberType::PremiumRate,
    PhoneNumberType::SharedCost,
    PhoneNumberType::VoIP,
    PhoneNumberType::PersonalNumber,
    PhoneNumberType::Pager,
    PhoneNumberType::UAN,
    PhoneNumberType::VoiceMail,
    PhoneNumberType::Unknown,
];
pub fn verdict(r: Result<NumberLengthType, ValidationError>) -> L {
    match r {
        Ok(NumberLengthType::IsPossible) => L::Possible,
        Ok(NumberLengthType::IsPossibleLocalOnly) => L::LocalOnly,
        Err(ValidationError::InvalidCountryCode) => L::InvalidCc,
        Err(ValidationError::TooShort) => L::TooShort,
        Err(ValidationError::InvalidLength) => L::InvalidLength,
        Err(ValidationError::TooLong) => L::TooLong,
    }
}
pub fn matching(u: &PhoneNumberUtil, a: &Num, b: &Num) -> M {
    match u.is_number_match(&a.to_lib(), &b.to_lib()) {
        MatchType::NoMatch => M::No,
        MatchType::ShortNsnMatch => M::Short,
        MatchType::NsnMatch => M::Nsn,
        MatchType::ExactMatch => M::Exact,
    }
}
/// Every answer the library gives about one number value.
pub fn profile(u: &PhoneNumberUtil, n: &Num, region: &str, carrier: &str, other: &Num) -> Vec<String> {
    let p = n.to_lib();
    let mut v = vec![];
    for k in crate::model::ALL_F {
        v.push(format!("format {k:?} {}", u.format(&p, f(k))));
    }
    v.push(format!("original {}", u.format_in_original_format(&p, region)));
    v.push(format!("carrier {}", u.format_national_number_with_carrier_code(&p, carrier)));
    v.push(format!("mobile1 {}", u.format_number_for_mobile_dialing(&p, region, true)));
    v.push(format!("mobile0 {}", u.format_number_for_mobile_dialing(&p, region, false)));
    v.push(format!("ooc {}", u.format_out_of_country_calling_number(&p, region)));
    v.push(format!("alpha {}", u.format_out_of_country_keeping_alpha_chars(&p, region)));
    v.push(format!("area {}", u.get_length_of_geographical_area_code(&p)));
    v.push(format!("ndc {}", u.get_length_of_national_destination_code(&p)));
    v.push(format!("nsn {}", u.get_national_significant_number(&p)));
    v.push(format!("type {:?}", u.get_number_type(&p)));
    v.push(format!("region {}", u.get_region_code_for_number(&p)));
    v.push(format!("geo {}", u.is_number_geographical(&p)));
    v.push(format!("possible {}", u.is_possible_number(&p)));
    v.push(format!("reason {:?}", u.is_possible_number_with_reason(&p)));
    v.push(format!("valid {}", u.is_valid_number(&p)));
    v.push(format!("validfor {}", u.is_valid_number_for_region(&p, region)));
    v.push(format!("intl {}", u.can_be_internationally_dialled(&p)));
    let mut q = p.clone();
    let b = u.truncate_too_long_number(&mut q);
    v.push(format!("trunc {b} {:?}", Num::from_lib(&q)));
    v.push(format!("match {:?}", u.is_number_match(&p, &other.to_lib())));
    v
}
pub fn text_profile(u: &PhoneNumberUtil, t: &str, region: &str) -> Vec<String> {
    vec![
        format!("parse {:?}", u.parse(t, region).map(|n| Num::from_lib(&n))),
        format!("keep {:?}", u.parse_and_keep_raw_input(t, region).map(|n| Num::from_lib(&n))),
        format!("alpha {}", u.is_alpha_number(t)),
        format!("conv {}", u.convert_alpha_characters_in_number(t)),
        format!("cc {:?}", u.get_country_code_for_region(region)),
        format!("nanpa {}", u.is_nanpa_country(region)),
        format!("ex {:?}", u.get_example_number(region).map(|n| Num::from_lib(&n))),
        format!("inv {:?}", u.get_invalid_example_number(region).map(|n| Num::from_lib(&n))),
    ]
}
