package com.google.i18n.phonenumbers;

import com.google.i18n.phonenumbers.Phonemetadata.PhoneMetadata;
import com.google.i18n.phonenumbers.Phonemetadata.PhoneMetadataCollection;
import java.io.BufferedReader;
import java.io.ByteArrayOutputStream;
import java.io.InputStreamReader;
import java.io.OutputStream;
import java.io.PrintStream;
import java.io.StringWriter;
import java.lang.reflect.Constructor;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import java.util.TreeSet;
import java.util.logging.LogManager;

/**
 * Answers requests on stdin (fields in hex, separated by blanks), one line each: "ok ...", "refused"
 * (the builder says no), "absent" (the internal method asked for is not there) or "died ...".
 */
public class Driver {
  public static void main(String[] a) throws Exception {
    PrintStream out = System.out;
    LogManager.getLogManager().reset();
    System.setErr(new PrintStream(OutputStream.nullOutputStream()));
    System.setOut(System.err);
    BufferedReader in = new BufferedReader(new InputStreamReader(System.in, "UTF-8"));
    for (String l; (l = in.readLine()) != null;) {
      String[] w = l.split(" ", -1);
      for (int i = 0; i < w.length; i++) w[i] = new String(unhex(w[i]), "UTF-8");
      String r;
      try {
        r = answer(w);
      } catch (InvocationTargetException e) {
        r = e.getCause() instanceof RuntimeException ? "refused" : "died " + name(e.getCause());
      } catch (NoSuchMethodException | NoSuchFieldException e) {
        r = "absent";
      } catch (Exception e) {
        r = "refused";
      } catch (Throwable e) {
        r = "died " + name(e);
      }
      out.println(r);
      out.flush();
    }
  }

  static String name(Throwable e) { return e.getClass().getName(); }

  static byte[] unhex(String s) {
    byte[] b = new byte[s.length() / 2];
    for (int i = 0; i < b.length; i++) b[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
    return b;
  }

  static String hex(byte[] b) {
    StringBuilder s = new StringBuilder();
    for (byte x : b) s.append(String.format("%02x", x));
    return s.toString();
  }

  static String answer(String[] w) throws Exception {
    switch (w[0]) {
      case "run": { // run ARGS...: the command line
        String[] args = new String[w.length - 1];
        System.arraycopy(w, 1, args, 0, args.length);
        Command[] commands = {new BuildMetadataRustFromXml()};
        return new CommandDispatcher(args, commands).start() ? "ok" : "refused";
      }
      case "special": { // special FILE: the special build, as bytes
        ByteArrayOutputStream o = new ByteArrayOutputStream();
        BuildMetadataFromXml.buildPhoneMetadataCollection(w[1], false, true).writeTo(o);
        return "ok " + hex(o.toByteArray());
      }
      case "tables": { // tables FILE: regions per calling code, region list
        PhoneMetadataCollection c = BuildMetadataFromXml.buildPhoneMetadataCollection(w[1], false, false);
        StringBuilder s = new StringBuilder("ok");
        for (Map.Entry<Integer, List<String>> e : BuildMetadataFromXml.buildCountryCodeToRegionCodeMap(c).entrySet()) {
          s.append(' ').append(e.getKey()).append('=').append(String.join(",", e.getValue()));
        }
        return s.append(" / ").append(String.join(",", BuildMetadataFromXml.buildRegionCodeList(c))).toString();
      }
      case "emit": { // emit TYPE CONST HEX: the source file holding these bytes
        StringWriter o = new StringWriter();
        RustMetadataGenerator.create(RustMetadataGenerator.Type.parse(w[1]), unhex(w[3]), w[2]).outputSourceFile(o);
        return "ok " + hex(o.toString().getBytes("UTF-8"));
      }
      case "fields": return "ok " + fields(w[1]);
      case "complement": return "ok " + complement(fields(w[1]));
      case "filter": { // filter drop|keep FIELDS FILE: the metadata after filtering, as bytes
        TreeMap<?, ?> m = fields(w[2]);
        if (w[1].equals("keep")) m = complement(m);
        Constructor<?> k = MetadataFilter.class.getDeclaredConstructor(TreeMap.class);
        k.setAccessible(true);
        Method f = MetadataFilter.class.getDeclaredMethod("filterMetadata", PhoneMetadata.Builder.class);
        f.setAccessible(true);
        Object filter = k.newInstance(m);
        PhoneMetadataCollection.Builder b = PhoneMetadataCollection.newBuilder();
        for (PhoneMetadata p : BuildMetadataFromXml.buildPhoneMetadataCollection(w[3], false, false).getMetadataList()) {
          PhoneMetadata.Builder x = p.toBuilder();
          f.invoke(filter, x);
          b.addMetadata(x.build());
        }
        return "ok " + hex(b.build().toByteArray());
      }
      default: throw new Error("request " + w[0]);
    }
  }

  @SuppressWarnings("unchecked")
  static TreeMap<String, TreeSet<String>> fields(String s) throws Exception {
    Method m = MetadataFilter.class.getDeclaredMethod("parseFieldMapFromString", String.class);
    m.setAccessible(true);
    return (TreeMap<String, TreeSet<String>>) m.invoke(null, s);
  }

  @SuppressWarnings("unchecked")
  static TreeMap<String, TreeSet<String>> complement(TreeMap<?, ?> f) throws Exception {
    Method m = MetadataFilter.class.getDeclaredMethod("computeComplement", TreeMap.class);
    m.setAccessible(true);
    return (TreeMap<String, TreeSet<String>>) m.invoke(null, f);
  }
}
