package ljc;

import java.io.*;
import java.math.*;
import java.nio.charset.StandardCharsets;
import java.util.*;

/** What the libraries written for this interpreter need of Java: JSON and processes. */
final class Lib {
    static void quote(String s, StringBuilder b) {
        b.append('"');
        for (int i = 0; i < s.length(); i++) {
            char c = s.charAt(i);
            switch (c) {
                case '"': b.append("\\\""); break;
                case '\\': b.append("\\\\"); break;
                case '\n': b.append("\\n"); break;
                case '\r': b.append("\\r"); break;
                case '\t': b.append("\\t"); break;
                case '\b': b.append("\\b"); break;
                case '\f': b.append("\\f"); break;
                default: if (c < 32) b.append(String.format("\\u%04X", (int) c)); else b.append(c);
            }
        }
        b.append('"');
    }
    static String kw(Object k) { return k instanceof Keyword ? k.toString().substring(1) : k.toString(); }
    static void json(Object x, StringBuilder b, AMap enc) {
        if (x == null) { b.append("null"); return; }
        if (x instanceof AMap) {
            b.append('{'); boolean first = true;
            for (Object e : (AMap) x) {
                if (!first) b.append(','); first = false;
                Object k = ((MapEntry) e).getKey();
                quote(kw(k), b); b.append(':'); json(((MapEntry) e).getValue(), b, enc);
            }
            b.append('}'); return;
        }
        if (x instanceof PSet || x instanceof Sequential) {
            b.append('['); boolean first = true;
            for (Iterator<?> it = RT.iter(x); it.hasNext(); ) { if (!first) b.append(','); first = false; json(it.next(), b, enc); }
            b.append(']'); return;
        }
        if (x instanceof String) { quote((String) x, b); return; }
        if (x instanceof Keyword || x instanceof Symbol || x instanceof Character) { quote(kw(x), b); return; }
        if (x instanceof Boolean || x instanceof Long || x instanceof Integer || x instanceof BigInteger || x instanceof BigDecimal || x instanceof Double) { b.append(x); return; }
        if (x instanceof Ratio) { b.append(((Ratio) x).doubleValue()); return; }
        for (Object e : enc) if (((Class<?>) ((MapEntry) e).getKey()).isInstance(x)) { RT.fn(((MapEntry) e).getValue()).invoke(new Object[]{x, new Jg(b)}); return; }
        throw new RuntimeException("Cannot JSON encode object of class: " + x.getClass() + ": " + x);
    }
    static final class Parse {
        final String s; int i = 0; final Object keyFn, acf; final boolean big;
        Parse(String s, Object keyFn, boolean big, Object acf) { this.s = s; this.keyFn = keyFn; this.big = big; this.acf = acf; }
        RuntimeException bad(String m) { return new RuntimeException("JSON: " + m + " at " + i); }
        void ws() { while (i < s.length() && " \t\r\n".indexOf(s.charAt(i)) >= 0) i++; }
        Object value(String field) {
            ws();
            if (i >= s.length()) throw bad("end of input");
            char c = s.charAt(i);
            if (c == '{') {
                i++; AMap m = PArrayMap.EMPTY; ws();
                if (s.charAt(i) == '}') { i++; return m; }
                for (;;) {
                    ws(); String k = string(); ws();
                    if (s.charAt(i++) != ':') throw bad("no colon");
                    Object v = value(k);
                    m = m.assoc(keyFn == null ? k : RT.fn(keyFn).invoke(new Object[]{k}), v);
                    ws(); c = s.charAt(i++);
                    if (c == '}') return m;
                    if (c != ',') throw bad("no comma");
                }
            }
            if (c == '[') {
                i++; Object r = acf == null ? PVector.EMPTY : RT.fn(acf).invoke(new Object[]{field}); ws();
                if (s.charAt(i) == ']') { i++; return r; }
                for (;;) {
                    r = RT.conj(r, value(null));
                    ws(); c = s.charAt(i++);
                    if (c == ']') return r;
                    if (c != ',') throw bad("no comma");
                }
            }
            if (c == '"') return string();
            if (s.startsWith("true", i)) { i += 4; return true; }
            if (s.startsWith("false", i)) { i += 5; return false; }
            if (s.startsWith("null", i)) { i += 4; return null; }
            int j = i;
            while (i < s.length() && "+-.eE0123456789".indexOf(s.charAt(i)) >= 0) i++;
            if (i == j) throw bad("unexpected " + c);
            String n = s.substring(j, i);
            if (n.matches("-?[0-9]+")) { BigInteger v = new BigInteger(n); return v.bitLength() < 64 ? (Object) v.longValue() : v; }
            return big ? (Object) new BigDecimal(n) : (Object) Double.valueOf(n);
        }
        String string() {
            if (s.charAt(i) != '"') throw bad("no string");
            i++; StringBuilder b = new StringBuilder();
            for (;;) {
                char c = s.charAt(i++);
                if (c == '"') return b.toString();
                if (c != '\\') { b.append(c); continue; }
                c = s.charAt(i++);
                switch (c) {
                    case 'n': b.append('\n'); break; case 't': b.append('\t'); break; case 'r': b.append('\r'); break;
                    case 'b': b.append('\b'); break; case 'f': b.append('\f'); break;
                    case 'u': b.append((char) Integer.parseInt(s.substring(i, i + 4), 16)); i += 4; break;
                    default: b.append(c);
                }
            }
        }
    }
    static byte[] all(InputStream in) throws IOException { return in.readAllBytes(); }
    static List<String> strs(Object v) { ArrayList<String> l = new ArrayList<>(); for (Object o : RT.list(v)) l.add((String) o); return l; }

    /** A value as tagged JSON, so that nothing of its kind is lost on the way to a reader in another language. */
    static void wire(Object x, StringBuilder b, int depth) {
        if (depth > 200) throw new Unsupported("a value too deep to report");
        if (x instanceof LazySeq || x instanceof Eduction) x = RT.seqOrEmpty(RT.seq(x));
        if (x == null || x instanceof Boolean) { b.append(x); return; }
        if (x instanceof String) { quote((String) x, b); return; }
        if (x instanceof AMap) {
            b.append("{\"m\":["); boolean first = true;
            for (Object e : (AMap) x) {
                if (!first) b.append(','); first = false;
                b.append('['); wire(((MapEntry) e).getKey(), b, depth + 1); b.append(','); wire(((MapEntry) e).getValue(), b, depth + 1); b.append(']');
            }
            b.append("]}"); return;
        }
        if (x instanceof PSet || x instanceof Sequential) {
            b.append(x instanceof PSet ? "{\"s\":[" : "["); boolean first = true;
            for (Iterator<?> it = RT.iter(x); it.hasNext(); ) { if (!first) b.append(','); first = false; wire(it.next(), b, depth + 1); }
            b.append(x instanceof PSet ? "]}" : "]"); return;
        }
        String tag = x instanceof Keyword ? "k" : x instanceof Symbol ? "y" : x instanceof Character ? "c" : x instanceof BigDecimal ? "d" : x instanceof Long || x instanceof Integer || x instanceof Short || x instanceof Byte ? "i"
            : x instanceof BigInteger ? "n" : x instanceof Double || x instanceof Float ? "f" : x instanceof Ratio ? "r" : x instanceof java.time.LocalDate ? "t" : "o";
        b.append("{\"").append(tag).append("\":");
        quote(x instanceof Keyword ? x.toString().substring(1) : tag.equals("o") ? x.getClass().getName() : x.toString(), b);
        b.append('}');
    }
    static Object[] thrown(Throwable t) {
        ArrayList<Object> l = new ArrayList<>();
        for (; t != null; t = t.getCause()) l.add(PArrayMap.of(Core.K("class"), RT.className(t), Core.K("message"), t.getMessage(), Core.K("data"), t instanceof ExInfo ? ((ExInfo) t).data : null));
        return l.toArray();
    }

    static void init() {
        Core.d("wire*", 1, a -> { StringBuilder b = new StringBuilder(); wire(a[0], b, 0); return b.toString(); });
        Core.d("thrown*", 1, a -> PVector.of(thrown((Throwable) a[0])));
        Core.d("gaps*", 0, a -> Unsupported.last);
        Core.d("json-out*", 2, a -> { StringBuilder b = new StringBuilder(); json(a[0], b, (AMap) a[1]); return b.toString(); });
        Core.d("json-in*", 4, a -> { Parse p = new Parse((String) a[0], a[1], RT.truthy(a[2]), a[3]); return p.value(null); });
        Core.d("sh*", 3, a -> {
            ProcessBuilder pb = new ProcessBuilder(strs(a[0]));
            if (a[2] != null) pb.directory(new File(a[2].toString()));
            final Process p = pb.start();
            final byte[] in = a[1] == null ? new byte[0] : ((String) a[1]).getBytes(StandardCharsets.UTF_8);
            final byte[][] err = new byte[1][];
            Thread t1 = new Thread(() -> { try (OutputStream o = p.getOutputStream()) { o.write(in); } catch (IOException e) { } });
            Thread t2 = new Thread(() -> { try { err[0] = all(p.getErrorStream()); } catch (IOException e) { err[0] = new byte[0]; } });
            t1.start(); t2.start();
            byte[] out = all(p.getInputStream());
            t1.join(); t2.join();
            return AMap.of(Core.K("exit"), (long) p.waitFor(), Core.K("out"), new String(out, StandardCharsets.UTF_8), Core.K("err"), new String(err[0], StandardCharsets.UTF_8));
        });
        Core.d("process-start*", 2, a -> {
            ProcessBuilder pb = new ProcessBuilder(strs(a[0]));
            Object err = RT.get(a[1], Core.K("err"), null);
            if (err == Core.K("inherit")) pb.redirectError(ProcessBuilder.Redirect.INHERIT);
            else if (err == Core.K("discard")) pb.redirectError(ProcessBuilder.Redirect.DISCARD);
            Object dir = RT.get(a[1], Core.K("dir"), null);
            if (dir != null) pb.directory(new File(dir.toString()));
            return pb.start();
        });
    }
}
