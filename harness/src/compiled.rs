//! The library's compiled metadata converted to the model structs.
use crate::xmlmeta::*;
use rlibphonenumber::phonemetadata as pm;

fn desc(d: &pm::PhoneNumberDesc) -> Desc {
    Desc {
        pattern: d.national_number_pattern.clone(),
        lens: d.possible_length.clone(),
        local: d.possible_length_local_only.clone(),
        example: d.example_number.clone(),
    }
}
fn fmt(f: &pm::NumberFormat) -> Fmt {
    Fmt {
        pattern: f.pattern().to_string(),
        format: f.format().to_string(),
        leading: f.leading_digits_pattern.clone(),
        np_rule: f.national_prefix_formatting_rule.clone(),
        np_optional: f.national_prefix_optional_when_formatting(),
        cc_rule: f.domestic_carrier_code_formatting_rule.clone(),
    }
}
pub fn from_proto(m: &pm::PhoneMetadata) -> Terr {
    Terr {
        id: m.id().to_string(),
        cc: m.country_code(),
        leading_digits: m.leading_digits.clone(),
        intl_prefix: m.international_prefix.clone(),
        pref_intl: m.preferred_international_prefix.clone(),
        nat_prefix: m.national_prefix.clone(),
        np_parsing: m.national_prefix_for_parsing.clone(),
        np_transform: m.national_prefix_transform_rule.clone(),
        pref_extn: m.preferred_extn_prefix.clone(),
        main: m.main_country_for_code(),
        portable: m.mobile_number_portable_region(),
        same_mobile_fixed: m.same_mobile_and_fixed_line_pattern(),
        formats: m.number_format.iter().map(fmt).collect(),
        intl_formats: m.intl_number_format.iter().map(fmt).collect(),
        descs: vec![
            desc(&m.general_desc),
            desc(&m.fixed_line),
            desc(&m.mobile),
            desc(&m.toll_free),
            desc(&m.premium_rate),
            desc(&m.shared_cost),
            desc(&m.personal_number),
            desc(&m.voip),
            desc(&m.pager),
            desc(&m.uan),
            desc(&m.voicemail),
            desc(&m.no_international_dialling),
        ],
    }
}
#[cfg(rlpn_verif)]
pub fn compiled() -> Vec<Terr> {
    rlibphonenumber::PhoneNumberUtil::verif_compiled_metadata().metadata.iter().map(from_proto).collect()
}
/// Without the hook (check.sh builds like this when the hook no longer compiles): the byte array of
/// the generated source file.
#[cfg(not(rlpn_verif))]
pub fn compiled() -> Vec<Terr> {
    use protobuf::Message;
    let src = std::fs::read_to_string("/repo/src/generated/metadata/metadata.rs").expect("metadata.rs");
    let array = src.split_once("METADATA").and_then(|x| x.1.split_once("= [")).and_then(|x| x.1.split_once("];")).expect("byte array").0;
    let bytes: Vec<u8> = array
        .split(',')
        .map(|x| x.trim())
        .filter(|x| !x.is_empty())
        .map(|x| u8::from_str_radix(x.trim_start_matches("0x"), 16).expect("byte"))
        .collect();
    pm::PhoneMetadataCollection::parse_from_bytes(&bytes).expect("metadata").metadata.iter().map(from_proto).collect()
}
