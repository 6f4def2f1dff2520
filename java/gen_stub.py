#!/usr/bin/env python3
"""Writes Phonemetadata.java: stand-in for the classes protoc would generate (no protobuf-java here).
Run by hand: gen_stub.py > Phonemetadata.java"""
D='PhoneNumberDesc'
M={
'NumberFormat':[('pattern','String',1,'req'),('format','String',2,'req'),('leadingDigitsPattern','String',3,'rep'),
 ('nationalPrefixFormattingRule','String',4,'opt'),('domesticCarrierCodeFormattingRule','String',5,'opt'),
 ('nationalPrefixOptionalWhenFormatting','boolean',6,'opt')],
D:[('nationalNumberPattern','String',2,'opt'),('exampleNumber','String',6,'opt'),('possibleLength','int',9,'rep'),
 ('possibleLengthLocalOnly','int',10,'rep')],
'PhoneMetadata':[('generalDesc',D,1,'opt'),('fixedLine',D,2,'opt'),('mobile',D,3,'opt'),('tollFree',D,4,'opt'),
 ('premiumRate',D,5,'opt'),('sharedCost',D,6,'opt'),('personalNumber',D,7,'opt'),('voip',D,8,'opt'),('id','String',9,'req'),
 ('countryCode','int',10,'opt'),('internationalPrefix','String',11,'opt'),('nationalPrefix','String',12,'opt'),
 ('preferredExtnPrefix','String',13,'opt'),('nationalPrefixForParsing','String',15,'opt'),
 ('nationalPrefixTransformRule','String',16,'opt'),('preferredInternationalPrefix','String',17,'opt'),
 ('sameMobileAndFixedLinePattern','boolean',18,'opt'),('numberFormat','NumberFormat',19,'rep'),
 ('intlNumberFormat','NumberFormat',20,'rep'),('pager',D,21,'opt'),('mainCountryForCode','boolean',22,'opt'),
 ('leadingDigits','String',23,'opt'),('noInternationalDialling',D,24,'opt'),('uan',D,25,'opt'),('emergency',D,27,'opt'),
 ('voicemail',D,28,'opt'),('shortCode',D,29,'opt'),('standardRate',D,30,'opt'),('carrierSpecific',D,31,'opt'),
 ('mobileNumberPortableRegion','boolean',32,'opt'),('smsServices',D,33,'opt')],
'PhoneMetadataCollection':[('metadata','PhoneMetadata',1,'rep')],
}
BOX={'int':'Integer','boolean':'Boolean'}
DEF={'int':'0','boolean':'false','String':'""'}
def cap(s): return s[0].upper()+s[1:]
def const(s): return ''.join('_'+c if c.isupper() else c.upper() for c in s)
print('''// Generated by gen_stub.py. Stand-in for the protoc-generated classes, with their interface.
package com.google.i18n.phonenumbers;

import java.io.ByteArrayOutputStream;
import java.io.IOException;
import java.io.OutputStream;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.List;
import java.util.Objects;

public final class Phonemetadata {
  private Phonemetadata() {}

  static void varint(OutputStream o, long v) throws IOException {
    while ((v & ~0x7fL) != 0) {
      o.write((int) (v & 0x7f) | 0x80);
      v >>>= 7;
    }
    o.write((int) v);
  }
  static void put(OutputStream o, int n, boolean v) throws IOException {
    varint(o, n << 3);
    o.write(v ? 1 : 0);
  }
  static void put(OutputStream o, int n, int v) throws IOException {
    varint(o, n << 3);
    varint(o, v);
  }
  static void put(OutputStream o, int n, byte[] b) throws IOException {
    varint(o, n << 3 | 2);
    varint(o, b.length);
    o.write(b);
  }
  static void put(OutputStream o, int n, String s) throws IOException {
    put(o, n, s.getBytes("UTF-8"));
  }
  static void put(OutputStream o, int n, Base<?> m) throws IOException {
    put(o, n, m.toByteArray());
  }
  static <T> T check(T v) {
    if (v == null) throw new NullPointerException();
    return v;
  }

  /** What messages and builders have in common. */
  public abstract static class Base<T> {
    abstract Object[] state();
    abstract void write(OutputStream o) throws IOException;
    public byte[] toByteArray() {
      try {
        ByteArrayOutputStream o = new ByteArrayOutputStream();
        write(o);
        return o.toByteArray();
      } catch (IOException e) {
        throw new RuntimeException(e);
      }
    }
    public void writeTo(OutputStream o) throws IOException { write(o); }
    public void writeDelimitedTo(OutputStream o) throws IOException {
      byte[] b = toByteArray();
      varint(o, b.length);
      o.write(b);
    }
    public int getSerializedSize() { return toByteArray().length; }
  }
''')
for m,fs in M.items():
    def field(n,t,r): # declaration
        return f'    List<{BOX.get(t,t)}> {n}_ = new ArrayList<>();' if r=='rep' else f'    {BOX.get(t,t)} {n}_;'
    def getters():
        o=[]
        for n,t,no,r in fs:
            C=cap(n); B=BOX.get(t,t); d=DEF.get(t,f'{t}.getDefaultInstance()')
            if r=='rep':
                o.append(f'''    public List<{B}> get{C}List() {{ return Collections.unmodifiableList({n}_); }}
    public int get{C}Count() {{ return {n}_.size(); }}
    public {t} get{C}(int i) {{ return {n}_.get(i); }}''')
            else:
                o.append(f'''    public boolean has{C}() {{ return {n}_ != null; }}
    public {t} get{C}() {{ return {n}_ == null ? {d} : {n}_; }}''')
        return '\n'.join(o)
    print(f'  public static final class {m} extends Base<{m}> {{')
    for n,t,no,r in fs: print(f'    public static final int {const(n)}_FIELD_NUMBER = {no};')
    for n,t,no,r in fs: print(field(n,t,r))
    print(f'''    private static final {m} DEFAULT = new {m}();
    private {m}() {{}}
    public static {m} getDefaultInstance() {{ return DEFAULT; }}
    public {m} getDefaultInstanceForType() {{ return DEFAULT; }}
    public static Builder newBuilder() {{ return new Builder(); }}
    public static Builder newBuilder({m} o) {{ return new Builder().mergeFrom(o); }}
    public Builder newBuilderForType() {{ return new Builder(); }}
    public Builder toBuilder() {{ return new Builder().mergeFrom(this); }}
{getters()}
    public boolean isInitialized() {{ return {' && '.join([f'{n}_ != null' for n,t,_,r in fs if r=='req']+(['true']))}; }}
    Object[] state() {{ return new Object[] {{{', '.join(f'{n}_' for n,*_ in fs)}}}; }}
    @Override public boolean equals(Object o) {{ return o instanceof {m} && Arrays.equals(state(), (({m}) o).state()); }}
    @Override public int hashCode() {{ return Arrays.hashCode(state()); }}
    @Override public String toString() {{ return Arrays.toString(state()); }}
    void write(OutputStream o) throws IOException {{''')
    for n,t,no,r in fs:
        if r=='rep': print(f'      for ({t} v : {n}_) put(o, {no}, v);')
        else: print(f'      if ({n}_ != null) put(o, {no}, {n}_);')
    print(f'''    }}

    public static final class Builder {{
      private final {m} m = new {m}();
      private Builder() {{}}
      @Override public Builder clone() {{ return new Builder().mergeFrom(m); }}
      public {m} getDefaultInstanceForType() {{ return DEFAULT; }}
      public boolean isInitialized() {{ return m.isInitialized(); }}
      public {m} build() {{
        if (!isInitialized()) throw new RuntimeException("Message missing required fields");
        return buildPartial();
      }}
      public {m} buildPartial() {{
        {m} r = new {m}();''')
    for n,t,no,r in fs:
        print(f'        r.{n}_ = '+(f'new ArrayList<>(m.{n}_);' if r=='rep' else f'm.{n}_;'))
    print(f'''        return r;
      }}
      public Builder clear() {{''')
    for n,*_ in fs: print(f'        clear{cap(n)}();')
    print(f'''        return this;
      }}
      public Builder mergeFrom({m} o) {{''')
    for n,t,no,r in fs:
        C=cap(n)
        if r=='rep': print(f'        m.{n}_.addAll(o.{n}_);')
        elif t in M: print(f'        if (o.{n}_ != null) merge{C}(o.{n}_);')
        else: print(f'        if (o.{n}_ != null) m.{n}_ = o.{n}_;')
    print('        return this;\n      }')
    for n,t,no,r in fs:
        C=cap(n); B=BOX.get(t,t); d=DEF.get(t,f'{t}.getDefaultInstance()')
        if r=='rep':
            print(f'''      public List<{B}> get{C}List() {{ return Collections.unmodifiableList(m.{n}_); }}
      public int get{C}Count() {{ return m.{n}_.size(); }}
      public {t} get{C}(int i) {{ return m.{n}_.get(i); }}
      public Builder set{C}(int i, {t} v) {{ m.{n}_.set(i, check(v)); return this; }}
      public Builder add{C}({t} v) {{ m.{n}_.add(check(v)); return this; }}
      public Builder addAll{C}(Iterable<? extends {B}> vs) {{ for ({B} v : vs) m.{n}_.add(check(v)); return this; }}
      public Builder clear{C}() {{ m.{n}_ = new ArrayList<>(); return this; }}''')
            if t in M: print(f'''      public Builder add{C}({t}.Builder b) {{ return add{C}(b.build()); }}
      public Builder add{C}(int i, {t} v) {{ m.{n}_.add(i, check(v)); return this; }}
      public Builder add{C}(int i, {t}.Builder b) {{ return add{C}(i, b.build()); }}
      public Builder set{C}(int i, {t}.Builder b) {{ return set{C}(i, b.build()); }}
      public Builder remove{C}(int i) {{ m.{n}_.remove(i); return this; }}''')
        else:
            print(f'''      public boolean has{C}() {{ return m.{n}_ != null; }}
      public {t} get{C}() {{ return m.get{C}(); }}
      public Builder set{C}({t} v) {{ m.{n}_ = check(v); return this; }}
      public Builder clear{C}() {{ m.{n}_ = null; return this; }}''')
            if t in M: print(f'''      public Builder set{C}({t}.Builder b) {{ return set{C}(b.build()); }}
      public Builder merge{C}({t} v) {{
        m.{n}_ = m.{n}_ == null ? v : {t}.newBuilder(m.{n}_).mergeFrom(v).build();
        return this;
      }}''')
    print('    }\n  }\n')
print('}')
