// Generated by gen_stub.py. Stand-in for the protoc-generated classes, with their interface.
package com.google.i18n.phonenumbers;

import java.io.ByteArrayOutputStream;
import java.io.IOException;
import java.io.OutputStream;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.List;
import java.util.Objects;

public final class Phonemetadata {
  private Phonemetadata() {}

  static void varint(OutputStream o, long v) throws IOException {
    while ((v & ~0x7fL) != 0) {
      o.write((int) (v & 0x7f) | 0x80);
      v >>>= 7;
    }
    o.write((int) v);
  }
  static void put(OutputStream o, int n, boolean v) throws IOException {
    varint(o, n << 3);
    o.write(v ? 1 : 0);
  }
  static void put(OutputStream o, int n, int v) throws IOException {
    varint(o, n << 3);
    varint(o, v);
  }
  static void put(OutputStream o, int n, byte[] b) throws IOException {
    varint(o, n << 3 | 2);
    varint(o, b.length);
    o.write(b);
  }
  static void put(OutputStream o, int n, String s) throws IOException {
    put(o, n, s.getBytes("UTF-8"));
  }
  static void put(OutputStream o, int n, Base<?> m) throws IOException {
    put(o, n, m.toByteArray());
  }
  static <T> T check(T v) {
    if (v == null) throw new NullPointerException();
    return v;
  }

  /** What messages and builders have in common. */
  public abstract static class Base<T> {
    abstract Object[] state();
    abstract void write(OutputStream o) throws IOException;
    public byte[] toByteArray() {
      try {
        ByteArrayOutputStream o = new ByteArrayOutputStream();
        write(o);
        return o.toByteArray();
      } catch (IOException e) {
        throw new RuntimeException(e);
      }
    }
    public void writeTo(OutputStream o) throws IOException { write(o); }
    public void writeDelimitedTo(OutputStream o) throws IOException {
      byte[] b = toByteArray();
      varint(o, b.length);
      o.write(b);
    }
    public int getSerializedSize() { return toByteArray().length; }
  }

  public static final class NumberFormat extends Base<NumberFormat> {
    public static final int PATTERN_FIELD_NUMBER = 1;
    public static final int FORMAT_FIELD_NUMBER = 2;
    public static final int LEADING_DIGITS_PATTERN_FIELD_NUMBER = 3;
    public static final int NATIONAL_PREFIX_FORMATTING_RULE_FIELD_NUMBER = 4;
    public static final int DOMESTIC_CARRIER_CODE_FORMATTING_RULE_FIELD_NUMBER = 5;
    public static final int NATIONAL_PREFIX_OPTIONAL_WHEN_FORMATTING_FIELD_NUMBER = 6;
    String pattern_;
    String format_;
    List<String> leadingDigitsPattern_ = new ArrayList<>();
    String nationalPrefixFormattingRule_;
    String domesticCarrierCodeFormattingRule_;
    Boolean nationalPrefixOptionalWhenFormatting_;
    private static final NumberFormat DEFAULT = new NumberFormat();
    private NumberFormat() {}
    public static NumberFormat getDefaultInstance() { return DEFAULT; }
    public NumberFormat getDefaultInstanceForType() { return DEFAULT; }
    public static Builder newBuilder() { return new Builder(); }
    public static Builder newBuilder(NumberFormat o) { return new Builder().mergeFrom(o); }
    public Builder newBuilderForType() { return new Builder(); }
    public Builder toBuilder() { return new Builder().mergeFrom(this); }
    public boolean hasPattern() { return pattern_ != null; }
    public String getPattern() { return pattern_ == null ? "" : pattern_; }
    public boolean hasFormat() { return format_ != null; }
    public String getFormat() { return format_ == null ? "" : format_; }
    public List<String> getLeadingDigitsPatternList() { return Collections.unmodifiableList(leadingDigitsPattern_); }
    public int getLeadingDigitsPatternCount() { return leadingDigitsPattern_.size(); }
    public String getLeadingDigitsPattern(int i) { return leadingDigitsPattern_.get(i); }
    public boolean hasNationalPrefixFormattingRule() { return nationalPrefixFormattingRule_ != null; }
    public String getNationalPrefixFormattingRule() { return nationalPrefixFormattingRule_ == null ? "" : nationalPrefixFormattingRule_; }
    public boolean hasDomesticCarrierCodeFormattingRule() { return domesticCarrierCodeFormattingRule_ != null; }
    public String getDomesticCarrierCodeFormattingRule() { return domesticCarrierCodeFormattingRule_ == null ? "" : domesticCarrierCodeFormattingRule_; }
    public boolean hasNationalPrefixOptionalWhenFormatting() { return nationalPrefixOptionalWhenFormatting_ != null; }
    public boolean getNationalPrefixOptionalWhenFormatting() { return nationalPrefixOptionalWhenFormatting_ == null ? false : nationalPrefixOptionalWhenFormatting_; }
    public boolean isInitialized() { return pattern_ != null && format_ != null && true; }
    Object[] state() { return new Object[] {pattern_, format_, leadingDigitsPattern_, nationalPrefixFormattingRule_, domesticCarrierCodeFormattingRule_, nationalPrefixOptionalWhenFormatting_}; }
    @Override public boolean equals(Object o) { return o instanceof NumberFormat && Arrays.equals(state(), ((NumberFormat) o).state()); }
    @Override public int hashCode() { return Arrays.hashCode(state()); }
    @Override public String toString() { return Arrays.toString(state()); }
    void write(OutputStream o) throws IOException {
      if (pattern_ != null) put(o, 1, pattern_);
      if (format_ != null) put(o, 2, format_);
      for (String v : leadingDigitsPattern_) put(o, 3, v);
      if (nationalPrefixFormattingRule_ != null) put(o, 4, nationalPrefixFormattingRule_);
      if (domesticCarrierCodeFormattingRule_ != null) put(o, 5, domesticCarrierCodeFormattingRule_);
      if (nationalPrefixOptionalWhenFormatting_ != null) put(o, 6, nationalPrefixOptionalWhenFormatting_);
    }

    public static final class Builder {
      private final NumberFormat m = new NumberFormat();
      private Builder() {}
      @Override public Builder clone() { return new Builder().mergeFrom(m); }
      public NumberFormat getDefaultInstanceForType() { return DEFAULT; }
      public boolean isInitialized() { return m.isInitialized(); }
      public NumberFormat build() {
        if (!isInitialized()) throw new RuntimeException("Message missing required fields");
        return buildPartial();
      }
      public NumberFormat buildPartial() {
        NumberFormat r = new NumberFormat();
        r.pattern_ = m.pattern_;
        r.format_ = m.format_;
        r.leadingDigitsPattern_ = new ArrayList<>(m.leadingDigitsPattern_);
        r.nationalPrefixFormattingRule_ = m.nationalPrefixFormattingRule_;
        r.domesticCarrierCodeFormattingRule_ = m.domesticCarrierCodeFormattingRule_;
        r.nationalPrefixOptionalWhenFormatting_ = m.nationalPrefixOptionalWhenFormatting_;
        return r;
      }
      public Builder clear() {
        clearPattern();
        clearFormat();
        clearLeadingDigitsPattern();
        clearNationalPrefixFormattingRule();
        clearDomesticCarrierCodeFormattingRule();
        clearNationalPrefixOptionalWhenFormatting();
        return this;
      }
      public Builder mergeFrom(NumberFormat o) {
        if (o.pattern_ != null) m.pattern_ = o.pattern_;
        if (o.format_ != null) m.format_ = o.format_;
        m.leadingDigitsPattern_.addAll(o.leadingDigitsPattern_);
        if (o.nationalPrefixFormattingRule_ != null) m.nationalPrefixFormattingRule_ = o.nationalPrefixFormattingRule_;
        if (o.domesticCarrierCodeFormattingRule_ != null) m.domesticCarrierCodeFormattingRule_ = o.domesticCarrierCodeFormattingRule_;
        if (o.nationalPrefixOptionalWhenFormatting_ != null) m.nationalPrefixOptionalWhenFormatting_ = o.nationalPrefixOptionalWhenFormatting_;
        return this;
      }
      public boolean hasPattern() { return m.pattern_ != null; }
      public String getPattern() { return m.getPattern(); }
      public Builder setPattern(String v) { m.pattern_ = check(v); return this; }
      public Builder clearPattern() { m.pattern_ = null; return this; }
      public boolean hasFormat() { return m.format_ != null; }
      public String getFormat() { return m.getFormat(); }
      public Builder setFormat(String v) { m.format_ = check(v); return this; }
      public Builder clearFormat() { m.format_ = null; return this; }
      public List<String> getLeadingDigitsPatternList() { return Collections.unmodifiableList(m.leadingDigitsPattern_); }
      public int getLeadingDigitsPatternCount() { return m.leadingDigitsPattern_.size(); }
      public String getLeadingDigitsPattern(int i) { return m.leadingDigitsPattern_.get(i); }
      public Builder setLeadingDigitsPattern(int i, String v) { m.leadingDigitsPattern_.set(i, check(v)); return this; }
      public Builder addLeadingDigitsPattern(String v) { m.leadingDigitsPattern_.add(check(v)); return this; }
      public Builder addAllLeadingDigitsPattern(Iterable<? extends String> vs) { for (String v : vs) m.leadingDigitsPattern_.add(check(v)); return this; }
      public Builder clearLeadingDigitsPattern() { m.leadingDigitsPattern_ = new ArrayList<>(); return this; }
      public boolean hasNationalPrefixFormattingRule() { return m.nationalPrefixFormattingRule_ != null; }
      public String getNationalPrefixFormattingRule() { return m.getNationalPrefixFormattingRule(); }
      public Builder setNationalPrefixFormattingRule(String v) { m.nationalPrefixFormattingRule_ = check(v); return this; }
      public Builder clearNationalPrefixFormattingRule() { m.nationalPrefixFormattingRule_ = null; return this; }
      public boolean hasDomesticCarrierCodeFormattingRule() { return m.domesticCarrierCodeFormattingRule_ != null; }
      public String getDomesticCarrierCodeFormattingRule() { return m.getDomesticCarrierCodeFormattingRule(); }
      public Builder setDomesticCarrierCodeFormattingRule(String v) { m.domesticCarrierCodeFormattingRule_ = check(v); return this; }
      public Builder clearDomesticCarrierCodeFormattingRule() { m.domesticCarrierCodeFormattingRule_ = null; return this; }
      public boolean hasNationalPrefixOptionalWhenFormatting() { return m.nationalPrefixOptionalWhenFormatting_ != null; }
      public boolean getNationalPrefixOptionalWhenFormatting() { return m.getNationalPrefixOptionalWhenFormatting(); }
      public Builder setNationalPrefixOptionalWhenFormatting(boolean v) { m.nationalPrefixOptionalWhenFormatting_ = check(v); return this; }
      public Builder clearNationalPrefixOptionalWhenFormatting() { m.nationalPrefixOptionalWhenFormatting_ = null; return this; }
    }
  }

  public static final class PhoneNumberDesc extends Base<PhoneNumberDesc> {
    public static final int NATIONAL_NUMBER_PATTERN_FIELD_NUMBER = 2;
    public static final int EXAMPLE_NUMBER_FIELD_NUMBER = 6;
    public static final int POSSIBLE_LENGTH_FIELD_NUMBER = 9;
    public static final int POSSIBLE_LENGTH_LOCAL_ONLY_FIELD_NUMBER = 10;
    String nationalNumberPattern_;
    String exampleNumber_;
    List<Integer> possibleLength_ = new ArrayList<>();
    List<Integer> possibleLengthLocalOnly_ = new ArrayList<>();
    private static final PhoneNumberDesc DEFAULT = new PhoneNumberDesc();
    private PhoneNumberDesc() {}
    public static PhoneNumberDesc getDefaultInstance() { return DEFAULT; }
    public PhoneNumberDesc getDefaultInstanceForType() { return DEFAULT; }
    public static Builder newBuilder() { return new Builder(); }
    public static Builder newBuilder(PhoneNumberDesc o) { return new Builder().mergeFrom(o); }
    public Builder newBuilderForType() { return new Builder(); }
    public Builder toBuilder() { return new Builder().mergeFrom(this); }
    public boolean hasNationalNumberPattern() { return nationalNumberPattern_ != null; }
    public String getNationalNumberPattern() { return nationalNumberPattern_ == null ? "" : nationalNumberPattern_; }
    public boolean hasExampleNumber() { return exampleNumber_ != null; }
    public String getExampleNumber() { return exampleNumber_ == null ? "" : exampleNumber_; }
    public List<Integer> getPossibleLengthList() { return Collections.unmodifiableList(possibleLength_); }
    public int getPossibleLengthCount() { return possibleLength_.size(); }
    public int getPossibleLength(int i) { return possibleLength_.get(i); }
    public List<Integer> getPossibleLengthLocalOnlyList() { return Collections.unmodifiableList(possibleLengthLocalOnly_); }
    public int getPossibleLengthLocalOnlyCount() { return possibleLengthLocalOnly_.size(); }
    public int getPossibleLengthLocalOnly(int i) { return possibleLengthLocalOnly_.get(i); }
    public boolean isInitialized() { return true; }
    Object[] state() { return new Object[] {nationalNumberPattern_, exampleNumber_, possibleLength_, possibleLengthLocalOnly_}; }
    @Override public boolean equals(Object o) { return o instanceof PhoneNumberDesc && Arrays.equals(state(), ((PhoneNumberDesc) o).state()); }
    @Override public int hashCode() { return Arrays.hashCode(state()); }
    @Override public String toString() { return Arrays.toString(state()); }
    void write(OutputStream o) throws IOException {
      if (nationalNumberPattern_ != null) put(o, 2, nationalNumberPattern_);
      if (exampleNumber_ != null) put(o, 6, exampleNumber_);
      for (int v : possibleLength_) put(o, 9, v);
      for (int v : possibleLengthLocalOnly_) put(o, 10, v);
    }

    public static final class Builder {
      private final PhoneNumberDesc m = new PhoneNumberDesc();
      private Builder() {}
      @Override public Builder clone() { return new Builder().mergeFrom(m); }
      public PhoneNumberDesc getDefaultInstanceForType() { return DEFAULT; }
      public boolean isInitialized() { return m.isInitialized(); }
      public PhoneNumberDesc build() {
        if (!isInitialized()) throw new RuntimeException("Message missing required fields");
        return buildPartial();
      }
      public PhoneNumberDesc buildPartial() {
        PhoneNumberDesc r = new PhoneNumberDesc();
        r.nationalNumberPattern_ = m.nationalNumberPattern_;
        r.exampleNumber_ = m.exampleNumber_;
        r.possibleLength_ = new ArrayList<>(m.possibleLength_);
        r.possibleLengthLocalOnly_ = new ArrayList<>(m.possibleLengthLocalOnly_);
        return r;
      }
      public Builder clear() {
        clearNationalNumberPattern();
        clearExampleNumber();
        clearPossibleLength();
        clearPossibleLengthLocalOnly();
        return this;
      }
      public Builder mergeFrom(PhoneNumberDesc o) {
        if (o.nationalNumberPattern_ != null) m.nationalNumberPattern_ = o.nationalNumberPattern_;
        if (o.exampleNumber_ != null) m.exampleNumber_ = o.exampleNumber_;
        m.possibleLength_.addAll(o.possibleLength_);
        m.possibleLengthLocalOnly_.addAll(o.possibleLengthLocalOnly_);
        return this;
      }
      public boolean hasNationalNumberPattern() { return m.nationalNumberPattern_ != null; }
      public String getNationalNumberPattern() { return m.getNationalNumberPattern(); }
      public Builder setNationalNumberPattern(String v) { m.nationalNumberPattern_ = check(v); return this; }
      public Builder clearNationalNumberPattern() { m.nationalNumberPattern_ = null; return this; }
      public boolean hasExampleNumber() { return m.exampleNumber_ != null; }
      public String getExampleNumber() { return m.getExampleNumber(); }
      public Builder setExampleNumber(String v) { m.exampleNumber_ = check(v); return this; }
      public Builder clearExampleNumber() { m.exampleNumber_ = null; return this; }
      public List<Integer> getPossibleLengthList() { return Collections.unmodifiableList(m.possibleLength_); }
      public int getPossibleLengthCount() { return m.possibleLength_.size(); }
      public int getPossibleLength(int i) { return m.possibleLength_.get(i); }
      public Builder setPossibleLength(int i, int v) { m.possibleLength_.set(i, check(v)); return this; }
      public Builder addPossibleLength(int v) { m.possibleLength_.add(check(v)); return this; }
      public Builder addAllPossibleLength(Iterable<? extends Integer> vs) { for (Integer v : vs) m.possibleLength_.add(check(v)); return this; }
      public Builder clearPossibleLength() { m.possibleLength_ = new ArrayList<>(); return this; }
      public List<Integer> getPossibleLengthLocalOnlyList() { return Collections.unmodifiableList(m.possibleLengthLocalOnly_); }
      public int getPossibleLengthLocalOnlyCount() { return m.possibleLengthLocalOnly_.size(); }
      public int getPossibleLengthLocalOnly(int i) { return m.possibleLengthLocalOnly_.get(i); }
      public Builder setPossibleLengthLocalOnly(int i, int v) { m.possibleLengthLocalOnly_.set(i, check(v)); return this; }
      public Builder addPossibleLengthLocalOnly(int v) { m.possibleLengthLocalOnly_.add(check(v)); return this; }
      public Builder addAllPossibleLengthLocalOnly(Iterable<? extends Integer> vs) { for (Integer v : vs) m.possibleLengthLocalOnly_.add(check(v)); return this; }
      public Builder clearPossibleLengthLocalOnly() { m.possibleLengthLocalOnly_ = new ArrayList<>(); return this; }
    }
  }

  public static final class PhoneMetadata extends Base<PhoneMetadata> {
    public static final int GENERAL_DESC_FIELD_NUMBER = 1;
    public static final int FIXED_LINE_FIELD_NUMBER = 2;
    public static final int MOBILE_FIELD_NUMBER = 3;
    public static final int TOLL_FREE_FIELD_NUMBER = 4;
    public static final int PREMIUM_RATE_FIELD_NUMBER = 5;
    public static final int SHARED_COST_FIELD_NUMBER = 6;
    public static final int PERSONAL_NUMBER_FIELD_NUMBER = 7;
    public static final int VOIP_FIELD_NUMBER = 8;
    public static final int ID_FIELD_NUMBER = 9;
    public static final int COUNTRY_CODE_FIELD_NUMBER = 10;
    public static final int INTERNATIONAL_PREFIX_FIELD_NUMBER = 11;
    public static final int NATIONAL_PREFIX_FIELD_NUMBER = 12;
    public static final int PREFERRED_EXTN_PREFIX_FIELD_NUMBER = 13;
    public static final int NATIONAL_PREFIX_FOR_PARSING_FIELD_NUMBER = 15;
    public static final int NATIONAL_PREFIX_TRANSFORM_RULE_FIELD_NUMBER = 16;
    public static final int PREFERRED_INTERNATIONAL_PREFIX_FIELD_NUMBER = 17;
    public static final int SAME_MOBILE_AND_FIXED_LINE_PATTERN_FIELD_NUMBER = 18;
    public static final int NUMBER_FORMAT_FIELD_NUMBER = 19;
    public static final int INTL_NUMBER_FORMAT_FIELD_NUMBER = 20;
    public static final int PAGER_FIELD_NUMBER = 21;
    public static final int MAIN_COUNTRY_FOR_CODE_FIELD_NUMBER = 22;
    public static final int LEADING_DIGITS_FIELD_NUMBER = 23;
    public static final int NO_INTERNATIONAL_DIALLING_FIELD_NUMBER = 24;
    public static final int UAN_FIELD_NUMBER = 25;
    public static final int EMERGENCY_FIELD_NUMBER = 27;
    public static final int VOICEMAIL_FIELD_NUMBER = 28;
    public static final int SHORT_CODE_FIELD_NUMBER = 29;
    public static final int STANDARD_RATE_FIELD_NUMBER = 30;
    public static final int CARRIER_SPECIFIC_FIELD_NUMBER = 31;
    public static final int MOBILE_NUMBER_PORTABLE_REGION_FIELD_NUMBER = 32;
    public static final int SMS_SERVICES_FIELD_NUMBER = 33;
    PhoneNumberDesc generalDesc_;
    PhoneNumberDesc fixedLine_;
    PhoneNumberDesc mobile_;
    PhoneNumberDesc tollFree_;
    PhoneNumberDesc premiumRate_;
    PhoneNumberDesc sharedCost_;
    PhoneNumberDesc personalNumber_;
    PhoneNumberDesc voip_;
    String id_;
    Integer countryCode_;
    String internationalPrefix_;
    String nationalPrefix_;
    String preferredExtnPrefix_;
    String nationalPrefixForParsing_;
    String nationalPrefixTransformRule_;
    String preferredInternationalPrefix_;
    Boolean sameMobileAndFixedLinePattern_;
    List<NumberFormat> numberFormat_ = new ArrayList<>();
    List<NumberFormat> intlNumberFormat_ = new ArrayList<>();
    PhoneNumberDesc pager_;
    Boolean mainCountryForCode_;
    String leadingDigits_;
    PhoneNumberDesc noInternationalDialling_;
    PhoneNumberDesc uan_;
    PhoneNumberDesc emergency_;
    PhoneNumberDesc voicemail_;
    PhoneNumberDesc shortCode_;
    PhoneNumberDesc standardRate_;
    PhoneNumberDesc carrierSpecific_;
    Boolean mobileNumberPortableRegion_;
    PhoneNumberDesc smsServices_;
    private static final PhoneMetadata DEFAULT = new PhoneMetadata();
    private PhoneMetadata() {}
    public static PhoneMetadata getDefaultInstance() { return DEFAULT; }
    public PhoneMetadata getDefaultInstanceForType() { return DEFAULT; }
    public static Builder newBuilder() { return new Builder(); }
    public static Builder newBuilder(PhoneMetadata o) { return new Builder().mergeFrom(o); }
    public Builder newBuilderForType() { return new Builder(); }
    public Builder toBuilder() { return new Builder().mergeFrom(this); }
    public boolean hasGeneralDesc() { return generalDesc_ != null; }
    public PhoneNumberDesc getGeneralDesc() { return generalDesc_ == null ? PhoneNumberDesc.getDefaultInstance() : generalDesc_; }
    public boolean hasFixedLine() { return fixedLine_ != null; }
    public PhoneNumberDesc getFixedLine() { return fixedLine_ == null ? PhoneNumberDesc.getDefaultInstance() : fixedLine_; }
    public boolean hasMobile() { return mobile_ != null; }
    public PhoneNumberDesc getMobile() { return mobile_ == null ? PhoneNumberDesc.getDefaultInstance() : mobile_; }
    public boolean hasTollFree() { return tollFree_ != null; }
    public PhoneNumberDesc getTollFree() { return tollFree_ == null ? PhoneNumberDesc.getDefaultInstance() : tollFree_; }
    public boolean hasPremiumRate() { return premiumRate_ != null; }
    public PhoneNumberDesc getPremiumRate() { return premiumRate_ == null ? PhoneNumberDesc.getDefaultInstance() : premiumRate_; }
    public boolean hasSharedCost() { return sharedCost_ != null; }
    public PhoneNumberDesc getSharedCost() { return sharedCost_ == null ? PhoneNumberDesc.getDefaultInstance() : sharedCost_; }
    public boolean hasPersonalNumber() { return personalNumber_ != null; }
    public PhoneNumberDesc getPersonalNumber() { return personalNumber_ == null ? PhoneNumberDesc.getDefaultInstance() : personalNumber_; }
    public boolean hasVoip() { return voip_ != null; }
    public PhoneNumberDesc getVoip() { return voip_ == null ? PhoneNumberDesc.getDefaultInstance() : voip_; }
    public boolean hasId() { return id_ != null; }
    public String getId() { return id_ == null ? "" : id_; }
    public boolean hasCountryCode() { return countryCode_ != null; }
    public int getCountryCode() { return countryCode_ == null ? 0 : countryCode_; }
    public boolean hasInternationalPrefix() { return internationalPrefix_ != null; }
    public String getInternationalPrefix() { return internationalPrefix_ == null ? "" : internationalPrefix_; }
    public boolean hasNationalPrefix() { return nationalPrefix_ != null; }
    public String getNationalPrefix() { return nationalPrefix_ == null ? "" : nationalPrefix_; }
    public boolean hasPreferredExtnPrefix() { return preferredExtnPrefix_ != null; }
    public String getPreferredExtnPrefix() { return preferredExtnPrefix_ == null ? "" : preferredExtnPrefix_; }
    public boolean hasNationalPrefixForParsing() { return nationalPrefixForParsing_ != null; }
    public String getNationalPrefixForParsing() { return nationalPrefixForParsing_ == null ? "" : nationalPrefixForParsing_; }
    public boolean hasNationalPrefixTransformRule() { return nationalPrefixTransformRule_ != null; }
    public String getNationalPrefixTransformRule() { return nationalPrefixTransformRule_ == null ? "" : nationalPrefixTransformRule_; }
    public boolean hasPreferredInternationalPrefix() { return preferredInternationalPrefix_ != null; }
    public String getPreferredInternationalPrefix() { return preferredInternationalPrefix_ == null ? "" : preferredInternationalPrefix_; }
    public boolean hasSameMobileAndFixedLinePattern() { return sameMobileAndFixedLinePattern_ != null; }
    public boolean getSameMobileAndFixedLinePattern() { return sameMobileAndFixedLinePattern_ == null ? false : sameMobileAndFixedLinePattern_; }
    public List<NumberFormat> getNumberFormatList() { return Collections.unmodifiableList(numberFormat_); }
    public int getNumberFormatCount() { return numberFormat_.size(); }
    public NumberFormat getNumberFormat(int i) { return numberFormat_.get(i); }
    public List<NumberFormat> getIntlNumberFormatList() { return Collections.unmodifiableList(intlNumberFormat_); }
    public int getIntlNumberFormatCount() { return intlNumberFormat_.size(); }
    public NumberFormat getIntlNumberFormat(int i) { return intlNumberFormat_.get(i); }
    public boolean hasPager() { return pager_ != null; }
    public PhoneNumberDesc getPager() { return pager_ == null ? PhoneNumberDesc.getDefaultInstance() : pager_; }
    public boolean hasMainCountryForCode() { return mainCountryForCode_ != null; }
    public boolean getMainCountryForCode() { return mainCountryForCode_ == null ? false : mainCountryForCode_; }
    public boolean hasLeadingDigits() { return leadingDigits_ != null; }
    public String getLeadingDigits() { return leadingDigits_ == null ? "" : leadingDigits_; }
    public boolean hasNoInternationalDialling() { return noInternationalDialling_ != null; }
    public PhoneNumberDesc getNoInternationalDialling() { return noInternationalDialling_ == null ? PhoneNumberDesc.getDefaultInstance() : noInternationalDialling_; }
    public boolean hasUan() { return uan_ != null; }
    public PhoneNumberDesc getUan() { return uan_ == null ? PhoneNumberDesc.getDefaultInstance() : uan_; }
    public boolean hasEmergency() { return emergency_ != null; }
    public PhoneNumberDesc getEmergency() { return emergency_ == null ? PhoneNumberDesc.getDefaultInstance() : emergency_; }
    public boolean hasVoicemail() { return voicemail_ != null; }
    public PhoneNumberDesc getVoicemail() { return voicemail_ == null ? PhoneNumberDesc.getDefaultInstance() : voicemail_; }
    public boolean hasShortCode() { return shortCode_ != null; }
    public PhoneNumberDesc getShortCode() { return shortCode_ == null ? PhoneNumberDesc.getDefaultInstance() : shortCode_; }
    public boolean hasStandardRate() { return standardRate_ != null; }
    public PhoneNumberDesc getStandardRate() { return standardRate_ == null ? PhoneNumberDesc.getDefaultInstance() : standardRate_; }
    public boolean hasCarrierSpecific() { return carrierSpecific_ != null; }
    public PhoneNumberDesc getCarrierSpecific() { return carrierSpecific_ == null ? PhoneNumberDesc.getDefaultInstance() : carrierSpecific_; }
    public boolean hasMobileNumberPortableRegion() { return mobileNumberPortableRegion_ != null; }
    public boolean getMobileNumberPortableRegion() { return mobileNumberPortableRegion_ == null ? false : mobileNumberPortableRegion_; }
    public boolean hasSmsServices() { return smsServices_ != null; }
    public PhoneNumberDesc getSmsServices() { return smsServices_ == null ? PhoneNumberDesc.getDefaultInstance() : smsServices_; }
    public boolean isInitialized() { return id_ != null && true; }
    Object[] state() { return new Object[] {generalDesc_, fixedLine_, mobile_, tollFree_, premiumRate_, sharedCost_, personalNumber_, voip_, id_, countryCode_, internationalPrefix_, nationalPrefix_, preferredExtnPrefix_, nationalPrefixForParsing_, nationalPrefixTransformRule_, preferredInternationalPrefix_, sameMobileAndFixedLinePattern_, numberFormat_, intlNumberFormat_, pager_, mainCountryForCode_, leadingDigits_, noInternationalDialling_, uan_, emergency_, voicemail_, shortCode_, standardRate_, carrierSpecific_, mobileNumberPortableRegion_, smsServices_}; }
    @Override public boolean equals(Object o) { return o instanceof PhoneMetadata && Arrays.equals(state(), ((PhoneMetadata) o).state()); }
    @Override public int hashCode() { return Arrays.hashCode(state()); }
    @Override public String toString() { return Arrays.toString(state()); }
    void write(OutputStream o) throws IOException {
      if (generalDesc_ != null) put(o, 1, generalDesc_);
      if (fixedLine_ != null) put(o, 2, fixedLine_);
      if (mobile_ != null) put(o, 3, mobile_);
      if (tollFree_ != null) put(o, 4, tollFree_);
      if (premiumRate_ != null) put(o, 5, premiumRate_);
      if (sharedCost_ != null) put(o, 6, sharedCost_);
      if (personalNumber_ != null) put(o, 7, personalNumber_);
      if (voip_ != null) put(o, 8, voip_);
      if (id_ != null) put(o, 9, id_);
      if (countryCode_ != null) put(o, 10, countryCode_);
      if (internationalPrefix_ != null) put(o, 11, internationalPrefix_);
      if (nationalPrefix_ != null) put(o, 12, nationalPrefix_);
      if (preferredExtnPrefix_ != null) put(o, 13, preferredExtnPrefix_);
      if (nationalPrefixForParsing_ != null) put(o, 15, nationalPrefixForParsing_);
      if (nationalPrefixTransformRule_ != null) put(o, 16, nationalPrefixTransformRule_);
      if (preferredInternationalPrefix_ != null) put(o, 17, preferredInternationalPrefix_);
      if (sameMobileAndFixedLinePattern_ != null) put(o, 18, sameMobileAndFixedLinePattern_);
      for (NumberFormat v : numberFormat_) put(o, 19, v);
      for (NumberFormat v : intlNumberFormat_) put(o, 20, v);
      if (pager_ != null) put(o, 21, pager_);
      if (mainCountryForCode_ != null) put(o, 22, mainCountryForCode_);
      if (leadingDigits_ != null) put(o, 23, leadingDigits_);
      if (noInternationalDialling_ != null) put(o, 24, noInternationalDialling_);
      if (uan_ != null) put(o, 25, uan_);
      if (emergency_ != null) put(o, 27, emergency_);
      if (voicemail_ != null) put(o, 28, voicemail_);
      if (shortCode_ != null) put(o, 29, shortCode_);
      if (standardRate_ != null) put(o, 30, standardRate_);
      if (carrierSpecific_ != null) put(o, 31, carrierSpecific_);
      if (mobileNumberPortableRegion_ != null) put(o, 32, mobileNumberPortableRegion_);
      if (smsServices_ != null) put(o, 33, smsServices_);
    }

    public static final class Builder {
      private final PhoneMetadata m = new PhoneMetadata();
      private Builder() {}
      @Override public Builder clone() { return new Builder().mergeFrom(m); }
      public PhoneMetadata getDefaultInstanceForType() { return DEFAULT; }
      public boolean isInitialized() { return m.isInitialized(); }
      public PhoneMetadata build() {
        if (!isInitialized()) throw new RuntimeException("Message missing required fields");
        return buildPartial();
      }
      public PhoneMetadata buildPartial() {
        PhoneMetadata r = new PhoneMetadata();
        r.generalDesc_ = m.generalDesc_;
        r.fixedLine_ = m.fixedLine_;
        r.mobile_ = m.mobile_;
        r.tollFree_ = m.tollFree_;
        r.premiumRate_ = m.premiumRate_;
        r.sharedCost_ = m.sharedCost_;
        r.personalNumber_ = m.personalNumber_;
        r.voip_ = m.voip_;
        r.id_ = m.id_;
        r.countryCode_ = m.countryCode_;
        r.internationalPrefix_ = m.internationalPrefix_;
        r.nationalPrefix_ = m.nationalPrefix_;
        r.preferredExtnPrefix_ = m.preferredExtnPrefix_;
        r.nationalPrefixForParsing_ = m.nationalPrefixForParsing_;
        r.nationalPrefixTransformRule_ = m.nationalPrefixTransformRule_;
        r.preferredInternationalPrefix_ = m.preferredInternationalPrefix_;
        r.sameMobileAndFixedLinePattern_ = m.sameMobileAndFixedLinePattern_;
        r.numberFormat_ = new ArrayList<>(m.numberFormat_);
        r.intlNumberFormat_ = new ArrayList<>(m.intlNumberFormat_);
        r.pager_ = m.pager_;
        r.mainCountryForCode_ = m.mainCountryForCode_;
        r.leadingDigits_ = m.leadingDigits_;
        r.noInternationalDialling_ = m.noInternationalDialling_;
        r.uan_ = m.uan_;
        r.emergency_ = m.emergency_;
        r.voicemail_ = m.voicemail_;
        r.shortCode_ = m.shortCode_;
        r.standardRate_ = m.standardRate_;
        r.carrierSpecific_ = m.carrierSpecific_;
        r.mobileNumberPortableRegion_ = m.mobileNumberPortableRegion_;
        r.smsServices_ = m.smsServices_;
        return r;
      }
      public Builder clear() {
        clearGeneralDesc();
        clearFixedLine();
        clearMobile();
        clearTollFree();
        clearPremiumRate();
        clearSharedCost();
        clearPersonalNumber();
        clearVoip();
        clearId();
        clearCountryCode();
        clearInternationalPrefix();
        clearNationalPrefix();
        clearPreferredExtnPrefix();
        clearNationalPrefixForParsing();
        clearNationalPrefixTransformRule();
        clearPreferredInternationalPrefix();
        clearSameMobileAndFixedLinePattern();
        clearNumberFormat();
        clearIntlNumberFormat();
        clearPager();
        clearMainCountryForCode();
        clearLeadingDigits();
        clearNoInternationalDialling();
        clearUan();
        clearEmergency();
        clearVoicemail();
        clearShortCode();
        clearStandardRate();
        clearCarrierSpecific();
        clearMobileNumberPortableRegion();
        clearSmsServices();
        return this;
      }
      public Builder mergeFrom(PhoneMetadata o) {
        if (o.generalDesc_ != null) mergeGeneralDesc(o.generalDesc_);
        if (o.fixedLine_ != null) mergeFixedLine(o.fixedLine_);
        if (o.mobile_ != null) mergeMobile(o.mobile_);
        if (o.tollFree_ != null) mergeTollFree(o.tollFree_);
        if (o.premiumRate_ != null) mergePremiumRate(o.premiumRate_);
        if (o.sharedCost_ != null) mergeSharedCost(o.sharedCost_);
        if (o.personalNumber_ != null) mergePersonalNumber(o.personalNumber_);
        if (o.voip_ != null) mergeVoip(o.voip_);
        if (o.id_ != null) m.id_ = o.id_;
        if (o.countryCode_ != null) m.countryCode_ = o.countryCode_;
        if (o.internationalPrefix_ != null) m.internationalPrefix_ = o.internationalPrefix_;
        if (o.nationalPrefix_ != null) m.nationalPrefix_ = o.nationalPrefix_;
        if (o.preferredExtnPrefix_ != null) m.preferredExtnPrefix_ = o.preferredExtnPrefix_;
        if (o.nationalPrefixForParsing_ != null) m.nationalPrefixForParsing_ = o.nationalPrefixForParsing_;
        if (o.nationalPrefixTransformRule_ != null) m.nationalPrefixTransformRule_ = o.nationalPrefixTransformRule_;
        if (o.preferredInternationalPrefix_ != null) m.preferredInternationalPrefix_ = o.preferredInternationalPrefix_;
        if (o.sameMobileAndFixedLinePattern_ != null) m.sameMobileAndFixedLinePattern_ = o.sameMobileAndFixedLinePattern_;
        m.numberFormat_.addAll(o.numberFormat_);
        m.intlNumberFormat_.addAll(o.intlNumberFormat_);
        if (o.pager_ != null) mergePager(o.pager_);
        if (o.mainCountryForCode_ != null) m.mainCountryForCode_ = o.mainCountryForCode_;
        if (o.leadingDigits_ != null) m.leadingDigits_ = o.leadingDigits_;
        if (o.noInternationalDialling_ != null) mergeNoInternationalDialling(o.noInternationalDialling_);
        if (o.uan_ != null) mergeUan(o.uan_);
        if (o.emergency_ != null) mergeEmergency(o.emergency_);
        if (o.voicemail_ != null) mergeVoicemail(o.voicemail_);
        if (o.shortCode_ != null) mergeShortCode(o.shortCode_);
        if (o.standardRate_ != null) mergeStandardRate(o.standardRate_);
        if (o.carrierSpecific_ != null) mergeCarrierSpecific(o.carrierSpecific_);
        if (o.mobileNumberPortableRegion_ != null) m.mobileNumberPortableRegion_ = o.mobileNumberPortableRegion_;
        if (o.smsServices_ != null) mergeSmsServices(o.smsServices_);
        return this;
      }
      public boolean hasGeneralDesc() { return m.generalDesc_ != null; }
      public PhoneNumberDesc getGeneralDesc() { return m.getGeneralDesc(); }
      public Builder setGeneralDesc(PhoneNumberDesc v) { m.generalDesc_ = check(v); return this; }
      public Builder clearGeneralDesc() { m.generalDesc_ = null; return this; }
      public Builder setGeneralDesc(PhoneNumberDesc.Builder b) { return setGeneralDesc(b.build()); }
      public Builder mergeGeneralDesc(PhoneNumberDesc v) {
        m.generalDesc_ = m.generalDesc_ == null ? v : PhoneNumberDesc.newBuilder(m.generalDesc_).mergeFrom(v).build();
        return this;
      }
      public boolean hasFixedLine() { return m.fixedLine_ != null; }
      public PhoneNumberDesc getFixedLine() { return m.getFixedLine(); }
      public Builder setFixedLine(PhoneNumberDesc v) { m.fixedLine_ = check(v); return this; }
      public Builder clearFixedLine() { m.fixedLine_ = null; return this; }
      public Builder setFixedLine(PhoneNumberDesc.Builder b) { return setFixedLine(b.build()); }
      public Builder mergeFixedLine(PhoneNumberDesc v) {
        m.fixedLine_ = m.fixedLine_ == null ? v : PhoneNumberDesc.newBuilder(m.fixedLine_).mergeFrom(v).build();
        return this;
      }
      public boolean hasMobile() { return m.mobile_ != null; }
      public PhoneNumberDesc getMobile() { return m.getMobile(); }
      public Builder setMobile(PhoneNumberDesc v) { m.mobile_ = check(v); return this; }
      public Builder clearMobile() { m.mobile_ = null; return this; }
      public Builder setMobile(PhoneNumberDesc.Builder b) { return setMobile(b.build()); }
      public Builder mergeMobile(PhoneNumberDesc v) {
        m.mobile_ = m.mobile_ == null ? v : PhoneNumberDesc.newBuilder(m.mobile_).mergeFrom(v).build();
        return this;
      }
      public boolean hasTollFree() { return m.tollFree_ != null; }
      public PhoneNumberDesc getTollFree() { return m.getTollFree(); }
      public Builder setTollFree(PhoneNumberDesc v) { m.tollFree_ = check(v); return this; }
      public Builder clearTollFree() { m.tollFree_ = null; return this; }
      public Builder setTollFree(PhoneNumberDesc.Builder b) { return setTollFree(b.build()); }
      public Builder mergeTollFree(PhoneNumberDesc v) {
        m.tollFree_ = m.tollFree_ == null ? v : PhoneNumberDesc.newBuilder(m.tollFree_).mergeFrom(v).build();
        return this;
      }
      public boolean hasPremiumRate() { return m.premiumRate_ != null; }
      public PhoneNumberDesc getPremiumRate() { return m.getPremiumRate(); }
      public Builder setPremiumRate(PhoneNumberDesc v) { m.premiumRate_ = check(v); return this; }
      public Builder clearPremiumRate() { m.premiumRate_ = null; return this; }
      public Builder setPremiumRate(PhoneNumberDesc.Builder b) { return setPremiumRate(b.build()); }
      public Builder mergePremiumRate(PhoneNumberDesc v) {
        m.premiumRate_ = m.premiumRate_ == null ? v : PhoneNumberDesc.newBuilder(m.premiumRate_).mergeFrom(v).build();
        return this;
      }
      public boolean hasSharedCost() { return m.sharedCost_ != null; }
      public PhoneNumberDesc getSharedCost() { return m.getSharedCost(); }
      public Builder setSharedCost(PhoneNumberDesc v) { m.sharedCost_ = check(v); return this; }
      public Builder clearSharedCost() { m.sharedCost_ = null; return this; }
      public Builder setSharedCost(PhoneNumberDesc.Builder b) { return setSharedCost(b.build()); }
      public Builder mergeSharedCost(PhoneNumberDesc v) {
        m.sharedCost_ = m.sharedCost_ == null ? v : PhoneNumberDesc.newBuilder(m.sharedCost_).mergeFrom(v).build();
        return this;
      }
      public boolean hasPersonalNumber() { return m.personalNumber_ != null; }
      public PhoneNumberDesc getPersonalNumber() { return m.getPersonalNumber(); }
      public Builder setPersonalNumber(PhoneNumberDesc v) { m.personalNumber_ = check(v); return this; }
      public Builder clearPersonalNumber() { m.personalNumber_ = null; return this; }
      public Builder setPersonalNumber(PhoneNumberDesc.Builder b) { return setPersonalNumber(b.build()); }
      public Builder mergePersonalNumber(PhoneNumberDesc v) {
        m.personalNumber_ = m.personalNumber_ == null ? v : PhoneNumberDesc.newBuilder(m.personalNumber_).mergeFrom(v).build();
        return this;
      }
      public boolean hasVoip() { return m.voip_ != null; }
      public PhoneNumberDesc getVoip() { return m.getVoip(); }
      public Builder setVoip(PhoneNumberDesc v) { m.voip_ = check(v); return this; }
      public Builder clearVoip() { m.voip_ = null; return this; }
      public Builder setVoip(PhoneNumberDesc.Builder b) { return setVoip(b.build()); }
      public Builder mergeVoip(PhoneNumberDesc v) {
        m.voip_ = m.voip_ == null ? v : PhoneNumberDesc.newBuilder(m.voip_).mergeFrom(v).build();
        return this;
      }
      public boolean hasId() { return m.id_ != null; }
      public String getId() { return m.getId(); }
      public Builder setId(String v) { m.id_ = check(v); return this; }
      public Builder clearId() { m.id_ = null; return this; }
      public boolean hasCountryCode() { return m.countryCode_ != null; }
      public int getCountryCode() { return m.getCountryCode(); }
      public Builder setCountryCode(int v) { m.countryCode_ = check(v); return this; }
      public Builder clearCountryCode() { m.countryCode_ = null; return this; }
      public boolean hasInternationalPrefix() { return m.internationalPrefix_ != null; }
      public String getInternationalPrefix() { return m.getInternationalPrefix(); }
      public Builder setInternationalPrefix(String v) { m.internationalPrefix_ = check(v); return this; }
      public Builder clearInternationalPrefix() { m.internationalPrefix_ = null; return this; }
      public boolean hasNationalPrefix() { return m.nationalPrefix_ != null; }
      public String getNationalPrefix() { return m.getNationalPrefix(); }
      public Builder setNationalPrefix(String v) { m.nationalPrefix_ = check(v); return this; }
      public Builder clearNationalPrefix() { m.nationalPrefix_ = null; return this; }
      public boolean hasPreferredExtnPrefix() { return m.preferredExtnPrefix_ != null; }
      public String getPreferredExtnPrefix() { return m.getPreferredExtnPrefix(); }
      public Builder setPreferredExtnPrefix(String v) { m.preferredExtnPrefix_ = check(v); return this; }
      public Builder clearPreferredExtnPrefix() { m.preferredExtnPrefix_ = null; return this; }
      public boolean hasNationalPrefixForParsing() { return m.nationalPrefixForParsing_ != null; }
      public String getNationalPrefixForParsing() { return m.getNationalPrefixForParsing(); }
      public Builder setNationalPrefixForParsing(String v) { m.nationalPrefixForParsing_ = check(v); return this; }
      public Builder clearNationalPrefixForParsing() { m.nationalPrefixForParsing_ = null; return this; }
      public boolean hasNationalPrefixTransformRule() { return m.nationalPrefixTransformRule_ != null; }
      public String getNationalPrefixTransformRule() { return m.getNationalPrefixTransformRule(); }
      public Builder setNationalPrefixTransformRule(String v) { m.nationalPrefixTransformRule_ = check(v); return this; }
      public Builder clearNationalPrefixTransformRule() { m.nationalPrefixTransformRule_ = null; return this; }
      public boolean hasPreferredInternationalPrefix() { return m.preferredInternationalPrefix_ != null; }
      public String getPreferredInternationalPrefix() { return m.getPreferredInternationalPrefix(); }
      public Builder setPreferredInternationalPrefix(String v) { m.preferredInternationalPrefix_ = check(v); return this; }
      public Builder clearPreferredInternationalPrefix() { m.preferredInternationalPrefix_ = null; return this; }
      public boolean hasSameMobileAndFixedLinePattern() { return m.sameMobileAndFixedLinePattern_ != null; }
      public boolean getSameMobileAndFixedLinePattern() { return m.getSameMobileAndFixedLinePattern(); }
      public Builder setSameMobileAndFixedLinePattern(boolean v) { m.sameMobileAndFixedLinePattern_ = check(v); return this; }
      public Builder clearSameMobileAndFixedLinePattern() { m.sameMobileAndFixedLinePattern_ = null; return this; }
      public List<NumberFormat> getNumberFormatList() { return Collections.unmodifiableList(m.numberFormat_); }
      public int getNumberFormatCount() { return m.numberFormat_.size(); }
      public NumberFormat getNumberFormat(int i) { return m.numberFormat_.get(i); }
      public Builder setNumberFormat(int i, NumberFormat v) { m.numberFormat_.set(i, check(v)); return this; }
      public Builder addNumberFormat(NumberFormat v) { m.numberFormat_.add(check(v)); return this; }
      public Builder addAllNumberFormat(Iterable<? extends NumberFormat> vs) { for (NumberFormat v : vs) m.numberFormat_.add(check(v)); return this; }
      public Builder clearNumberFormat() { m.numberFormat_ = new ArrayList<>(); return this; }
      public Builder addNumberFormat(NumberFormat.Builder b) { return addNumberFormat(b.build()); }
      public Builder addNumberFormat(int i, NumberFormat v) { m.numberFormat_.add(i, check(v)); return this; }
      public Builder addNumberFormat(int i, NumberFormat.Builder b) { return addNumberFormat(i, b.build()); }
      public Builder setNumberFormat(int i, NumberFormat.Builder b) { return setNumberFormat(i, b.build()); }
      public Builder removeNumberFormat(int i) { m.numberFormat_.remove(i); return this; }
      public List<NumberFormat> getIntlNumberFormatList() { return Collections.unmodifiableList(m.intlNumberFormat_); }
      public int getIntlNumberFormatCount() { return m.intlNumberFormat_.size(); }
      public NumberFormat getIntlNumberFormat(int i) { return m.intlNumberFormat_.get(i); }
      public Builder setIntlNumberFormat(int i, NumberFormat v) { m.intlNumberFormat_.set(i, check(v)); return this; }
      public Builder addIntlNumberFormat(NumberFormat v) { m.intlNumberFormat_.add(check(v)); return this; }
      public Builder addAllIntlNumberFormat(Iterable<? extends NumberFormat> vs) { for (NumberFormat v : vs) m.intlNumberFormat_.add(check(v)); return this; }
      public Builder clearIntlNumberFormat() { m.intlNumberFormat_ = new ArrayList<>(); return this; }
      public Builder addIntlNumberFormat(NumberFormat.Builder b) { return addIntlNumberFormat(b.build()); }
      public Builder addIntlNumberFormat(int i, NumberFormat v) { m.intlNumberFormat_.add(i, check(v)); return this; }
      public Builder addIntlNumberFormat(int i, NumberFormat.Builder b) { return addIntlNumberFormat(i, b.build()); }
      public Builder setIntlNumberFormat(int i, NumberFormat.Builder b) { return setIntlNumberFormat(i, b.build()); }
      public Builder removeIntlNumberFormat(int i) { m.intlNumberFormat_.remove(i); return this; }
      public boolean hasPager() { return m.pager_ != null; }
      public PhoneNumberDesc getPager() { return m.getPager(); }
      public Builder setPager(PhoneNumberDesc v) { m.pager_ = check(v); return this; }
      public Builder clearPager() { m.pager_ = null; return this; }
      public Builder setPager(PhoneNumberDesc.Builder b) { return setPager(b.build()); }
      public Builder mergePager(PhoneNumberDesc v) {
        m.pager_ = m.pager_ == null ? v : PhoneNumberDesc.newBuilder(m.pager_).mergeFrom(v).build();
        return this;
      }
      public boolean hasMainCountryForCode() { return m.mainCountryForCode_ != null; }
      public boolean getMainCountryForCode() { return m.getMainCountryForCode(); }
      public Builder setMainCountryForCode(boolean v) { m.mainCountryForCode_ = check(v); return this; }
      public Builder clearMainCountryForCode() { m.mainCountryForCode_ = null; return this; }
      public boolean hasLeadingDigits() { return m.leadingDigits_ != null; }
      public String getLeadingDigits() { return m.getLeadingDigits(); }
      public Builder setLeadingDigits(String v) { m.leadingDigits_ = check(v); return this; }
      public Builder clearLeadingDigits() { m.leadingDigits_ = null; return this; }
      public boolean hasNoInternationalDialling() { return m.noInternationalDialling_ != null; }
      public PhoneNumberDesc getNoInternationalDialling() { return m.getNoInternationalDialling(); }
      public Builder setNoInternationalDialling(PhoneNumberDesc v) { m.noInternationalDialling_ = check(v); return this; }
      public Builder clearNoInternationalDialling() { m.noInternationalDialling_ = null; return this; }
      public Builder setNoInternationalDialling(PhoneNumberDesc.Builder b) { return setNoInternationalDialling(b.build()); }
      public Builder mergeNoInternationalDialling(PhoneNumberDesc v) {
        m.noInternationalDialling_ = m.noInternationalDialling_ == null ? v : PhoneNumberDesc.newBuilder(m.noInternationalDialling_).mergeFrom(v).build();
        return this;
      }
      public boolean hasUan() { return m.uan_ != null; }
      public PhoneNumberDesc getUan() { return m.getUan(); }
      public Builder setUan(PhoneNumberDesc v) { m.uan_ = check(v); return this; }
      public Builder clearUan() { m.uan_ = null; return this; }
      public Builder setUan(PhoneNumberDesc.Builder b) { return setUan(b.build()); }
      public Builder mergeUan(PhoneNumberDesc v) {
        m.uan_ = m.uan_ == null ? v : PhoneNumberDesc.newBuilder(m.uan_).mergeFrom(v).build();
        return this;
      }
      public boolean hasEmergency() { return m.emergency_ != null; }
      public PhoneNumberDesc getEmergency() { return m.getEmergency(); }
      public Builder setEmergency(PhoneNumberDesc v) { m.emergency_ = check(v); return this; }
      public Builder clearEmergency() { m.emergency_ = null; return this; }
      public Builder setEmergency(PhoneNumberDesc.Builder b) { return setEmergency(b.build()); }
      public Builder mergeEmergency(PhoneNumberDesc v) {
        m.emergency_ = m.emergency_ == null ? v : PhoneNumberDesc.newBuilder(m.emergency_).mergeFrom(v).build();
        return this;
      }
      public boolean hasVoicemail() { return m.voicemail_ != null; }
      public PhoneNumberDesc getVoicemail() { return m.getVoicemail(); }
      public Builder setVoicemail(PhoneNumberDesc v) { m.voicemail_ = check(v); return this; }
      public Builder clearVoicemail() { m.voicemail_ = null; return this; }
      public Builder setVoicemail(PhoneNumberDesc.Builder b) { return setVoicemail(b.build()); }
      public Builder mergeVoicemail(PhoneNumberDesc v) {
        m.voicemail_ = m.voicemail_ == null ? v : PhoneNumberDesc.newBuilder(m.voicemail_).mergeFrom(v).build();
        return this;
      }
      public boolean hasShortCode() { return m.shortCode_ != null; }
      public PhoneNumberDesc getShortCode() { return m.getShortCode(); }
      public Builder setShortCode(PhoneNumberDesc v) { m.shortCode_ = check(v); return this; }
      public Builder clearShortCode() { m.shortCode_ = null; return this; }
      public Builder setShortCode(PhoneNumberDesc.Builder b) { return setShortCode(b.build()); }
      public Builder mergeShortCode(PhoneNumberDesc v) {
        m.shortCode_ = m.shortCode_ == null ? v : PhoneNumberDesc.newBuilder(m.shortCode_).mergeFrom(v).build();
        return this;
      }
      public boolean hasStandardRate() { return m.standardRate_ != null; }
      public PhoneNumberDesc getStandardRate() { return m.getStandardRate(); }
      public Builder setStandardRate(PhoneNumberDesc v) { m.standardRate_ = check(v); return this; }
      public Builder clearStandardRate() { m.standardRate_ = null; return this; }
      public Builder setStandardRate(PhoneNumberDesc.Builder b) { return setStandardRate(b.build()); }
      public Builder mergeStandardRate(PhoneNumberDesc v) {
        m.standardRate_ = m.standardRate_ == null ? v : PhoneNumberDesc.newBuilder(m.standardRate_).mergeFrom(v).build();
        return this;
      }
      public boolean hasCarrierSpecific() { return m.carrierSpecific_ != null; }
      public PhoneNumberDesc getCarrierSpecific() { return m.getCarrierSpecific(); }
      public Builder setCarrierSpecific(PhoneNumberDesc v) { m.carrierSpecific_ = check(v); return this; }
      public Builder clearCarrierSpecific() { m.carrierSpecific_ = null; return this; }
      public Builder setCarrierSpecific(PhoneNumberDesc.Builder b) { return setCarrierSpecific(b.build()); }
      public Builder mergeCarrierSpecific(PhoneNumberDesc v) {
        m.carrierSpecific_ = m.carrierSpecific_ == null ? v : PhoneNumberDesc.newBuilder(m.carrierSpecific_).mergeFrom(v).build();
        return this;
      }
      public boolean hasMobileNumberPortableRegion() { return m.mobileNumberPortableRegion_ != null; }
      public boolean getMobileNumberPortableRegion() { return m.getMobileNumberPortableRegion(); }
      public Builder setMobileNumberPortableRegion(boolean v) { m.mobileNumberPortableRegion_ = check(v); return this; }
      public Builder clearMobileNumberPortableRegion() { m.mobileNumberPortableRegion_ = null; return this; }
      public boolean hasSmsServices() { return m.smsServices_ != null; }
      public PhoneNumberDesc getSmsServices() { return m.getSmsServices(); }
      public Builder setSmsServices(PhoneNumberDesc v) { m.smsServices_ = check(v); return this; }
      public Builder clearSmsServices() { m.smsServices_ = null; return this; }
      public Builder setSmsServices(PhoneNumberDesc.Builder b) { return setSmsServices(b.build()); }
      public Builder mergeSmsServices(PhoneNumberDesc v) {
        m.smsServices_ = m.smsServices_ == null ? v : PhoneNumberDesc.newBuilder(m.smsServices_).mergeFrom(v).build();
        return this;
      }
    }
  }

  public static final class PhoneMetadataCollection extends Base<PhoneMetadataCollection> {
    public static final int METADATA_FIELD_NUMBER = 1;
    List<PhoneMetadata> metadata_ = new ArrayList<>();
    private static final PhoneMetadataCollection DEFAULT = new PhoneMetadataCollection();
    private PhoneMetadataCollection() {}
    public static PhoneMetadataCollection getDefaultInstance() { return DEFAULT; }
    public PhoneMetadataCollection getDefaultInstanceForType() { return DEFAULT; }
    public static Builder newBuilder() { return new Builder(); }
    public static Builder newBuilder(PhoneMetadataCollection o) { return new Builder().mergeFrom(o); }
    public Builder newBuilderForType() { return new Builder(); }
    public Builder toBuilder() { return new Builder().mergeFrom(this); }
    public List<PhoneMetadata> getMetadataList() { return Collections.unmodifiableList(metadata_); }
    public int getMetadataCount() { return metadata_.size(); }
    public PhoneMetadata getMetadata(int i) { return metadata_.get(i); }
    public boolean isInitialized() { return true; }
    Object[] state() { return new Object[] {metadata_}; }
    @Override public boolean equals(Object o) { return o instanceof PhoneMetadataCollection && Arrays.equals(state(), ((PhoneMetadataCollection) o).state()); }
    @Override public int hashCode() { return Arrays.hashCode(state()); }
    @Override public String toString() { return Arrays.toString(state()); }
    void write(OutputStream o) throws IOException {
      for (PhoneMetadata v : metadata_) put(o, 1, v);
    }

    public static final class Builder {
      private final PhoneMetadataCollection m = new PhoneMetadataCollection();
      private Builder() {}
      @Override public Builder clone() { return new Builder().mergeFrom(m); }
      public PhoneMetadataCollection getDefaultInstanceForType() { return DEFAULT; }
      public boolean isInitialized() { return m.isInitialized(); }
      public PhoneMetadataCollection build() {
        if (!isInitialized()) throw new RuntimeException("Message missing required fields");
        return buildPartial();
      }
      public PhoneMetadataCollection buildPartial() {
        PhoneMetadataCollection r = new PhoneMetadataCollection();
        r.metadata_ = new ArrayList<>(m.metadata_);
        return r;
      }
      public Builder clear() {
        clearMetadata();
        return this;
      }
      public Builder mergeFrom(PhoneMetadataCollection o) {
        m.metadata_.addAll(o.metadata_);
        return this;
      }
      public List<PhoneMetadata> getMetadataList() { return Collections.unmodifiableList(m.metadata_); }
      public int getMetadataCount() { return m.metadata_.size(); }
      public PhoneMetadata getMetadata(int i) { return m.metadata_.get(i); }
      public Builder setMetadata(int i, PhoneMetadata v) { m.metadata_.set(i, check(v)); return this; }
      public Builder addMetadata(PhoneMetadata v) { m.metadata_.add(check(v)); return this; }
      public Builder addAllMetadata(Iterable<? extends PhoneMetadata> vs) { for (PhoneMetadata v : vs) m.metadata_.add(check(v)); return this; }
      public Builder clearMetadata() { m.metadata_ = new ArrayList<>(); return this; }
      public Builder addMetadata(PhoneMetadata.Builder b) { return addMetadata(b.build()); }
      public Builder addMetadata(int i, PhoneMetadata v) { m.metadata_.add(i, check(v)); return this; }
      public Builder addMetadata(int i, PhoneMetadata.Builder b) { return addMetadata(i, b.build()); }
      public Builder setMetadata(int i, PhoneMetadata.Builder b) { return setMetadata(i, b.build()); }
      public Builder removeMetadata(int i) { m.metadata_.remove(i); return this; }
    }
  }

}
