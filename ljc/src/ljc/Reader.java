package ljc;

import java.math.*;
import java.util.*;
import java.util.regex.*;

/** Reads Clojure, or EDN. */
final class Reader {
    static final Object EOF = new Object();
    final String s; int i = 0; final boolean edn; final Object readers, dflt;
    int line = 1;
    IdentityHashMap<Object, Integer> lines = new IdentityHashMap<>();
    Reader(String s, boolean edn, Object readers, Object dflt) { this.s = s; this.edn = edn; this.readers = readers; this.dflt = dflt; }
    Reader(String s) { this(s, false, null, null); }

    RuntimeException err(String m) { return new RuntimeException(m); }
    static boolean ws(int c) { return c == ',' || Character.isWhitespace(c); }
    void skip() {
        for (;;) {
            while (i < s.length() && ws(s.charAt(i))) i++;
            if (i < s.length() && s.charAt(i) == ';' || s.startsWith("#!", i) && !edn) { while (i < s.length() && s.charAt(i) != '\n') i++; continue; }
            if (s.startsWith("#_", i)) { i += 2; read1(); continue; }
            return;
        }
    }
    /** The next form, or EOF. */
    Object read() {
        skip();
        return i >= s.length() ? EOF : form();
    }
    Object read1() {
        Object o = read();
        if (o == EOF) throw err("EOF while reading");
        return o;
    }
    List<Object> until(char close) {
        ArrayList<Object> l = new ArrayList<>();
        for (;;) {
            skip();
            if (i >= s.length()) throw err("EOF while reading");
            if (s.charAt(i) == close) { i++; return l; }
            Object f = form();
            if (f != SKIP) l.add(f);
        }
    }
    static final Object SKIP = new Object();
    static boolean term(char c) { return ws(c) || "\";'@^`~()[]{}\\".indexOf(c) >= 0; }
    String token() {
        int j = i;
        while (i < s.length() && !(ws(s.charAt(i)) || "\";@^`~()[]{}\\".indexOf(s.charAt(i)) >= 0)) i++;
        return s.substring(j, i);
    }
    static Object L(Object... a) { return PList.of(a); }
    static Symbol Y(String n) { return Symbol.of(n); }
    static Symbol core(String n) { return Symbol.of("clojure.core", n); }
    Object form() {
        char c = s.charAt(i);
        switch (c) {
            case '(': { i++; return PList.ofList(until(')')); }
            case '[': i++; return PVector.ofList(until(']'));
            case '{': { i++; return map(until('}')); }
            case ')': case ']': case '}': throw err("Unmatched delimiter: " + c);
            case '"': i++; return string();
            case '\\': return chr();
            case '^': if (edn) break; { i++; Object m = read1(); return withMeta(m, read1()); }
        }
        if (!edn) switch (c) {
            case '\'': i++; return L(Y("quote"), read1());
            case '`': i++; return new SyntaxQuote().top(read1());
            case '~': i++; if (i < s.length() && s.charAt(i) == '@') { i++; return L(core("unquote-splicing"), read1()); } return L(core("unquote"), read1());
            case '@': i++; return L(core("deref"), read1());
        }
        if (c == '#') return dispatch();
        String t = token();
        if (t.isEmpty()) throw err("Invalid token at " + i + ": " + c);
        return atom(t);
    }
    Object withMeta(Object m, Object x) {
        AMap mm = m instanceof AMap ? (AMap) m : m instanceof Keyword ? AMap.of(m, true) : AMap.of(Keyword.of("tag"), m);
        if (!(x instanceof IObj)) throw err("Metadata can only be applied to IMetas");
        Object old = ((IObj) x).meta();
        if (old != null) for (Object e : mm) old = ((AMap) old).assoc(((MapEntry) e).getKey(), ((MapEntry) e).getValue());
        return ((IObj) x).withMeta(old == null ? mm : old);
    }
    Object map(List<Object> l) {
        if (l.size() % 2 != 0) throw err("Map literal must contain an even number of forms");
        AMap m = PArrayMap.EMPTY;
        for (int k = 0; k < l.size(); k += 2) {
            if (m.has(l.get(k))) throw new IllegalArgumentException("Duplicate key: " + RT.prStr(l.get(k)));
            m = m.assoc(l.get(k), l.get(k + 1));
        }
        return m;
    }
    String string() {
        StringBuilder b = new StringBuilder();
        for (;;) {
            if (i >= s.length()) throw err("EOF while reading string");
            char c = s.charAt(i++);
            if (c == '"') return b.toString();
            if (c != '\\') { b.append(c); continue; }
            if (i >= s.length()) throw err("EOF while reading string");
            c = s.charAt(i++);
            switch (c) {
                case 'n': b.append('\n'); break;
                case 't': b.append('\t'); break;
                case 'r': b.append('\r'); break;
                case 'b': b.append('\b'); break;
                case 'f': b.append('\f'); break;
                case '\\': case '"': b.append(c); break;
                case 'u': b.append((char) Integer.parseInt(s.substring(i, i + 4), 16)); i += 4; break;
                default:
                    if (c >= '0' && c <= '7') { int v = c - '0'; int k = 0; while (k < 2 && i < s.length() && s.charAt(i) >= '0' && s.charAt(i) <= '7') { v = v * 8 + s.charAt(i++) - '0'; k++; } b.append((char) v); break; }
                    throw err("Unsupported escape character: \\" + c);
            }
        }
    }
    Object chr() {
        i++;
        int j = i; i++;
        while (i < s.length() && !term(s.charAt(i))) i++;
        String t = s.substring(j, i);
        if (t.length() == 1) return t.charAt(0);
        switch (t) {
            case "newline": return '\n'; case "space": return ' '; case "tab": return '\t'; case "return": return '\r';
            case "backspace": return '\b'; case "formfeed": return '\f';
        }
        if (t.charAt(0) == 'u' && t.length() == 5) return (char) Integer.parseInt(t.substring(1), 16);
        throw err("Unsupported character: \\" + t);
    }
    static final Pattern INT = Pattern.compile("([-+]?)(?:(0)|([1-9][0-9]*)|0[xX]([0-9A-Fa-f]+)|0([0-7]+)|([1-9][0-9]?)[rR]([0-9A-Za-z]+))(N)?");
    static final Pattern RATIO = Pattern.compile("([-+]?[0-9]+)/([0-9]+)");
    static final Pattern FLOAT = Pattern.compile("([-+]?[0-9]+(\\.[0-9]*)?([eE][-+]?[0-9]+)?)(M)?");
    Object number(String t) {
        Matcher m = INT.matcher(t);
        if (m.matches()) {
            BigInteger b; 
            if (m.group(2) != null) b = BigInteger.ZERO;
            else if (m.group(3) != null) b = new BigInteger(m.group(3));
            else if (m.group(4) != null) b = new BigInteger(m.group(4), 16);
            else if (m.group(5) != null) b = new BigInteger(m.group(5), 8);
            else b = new BigInteger(m.group(7), Integer.parseInt(m.group(6)));
            if (m.group(1).equals("-")) b = b.negate();
            return m.group(8) != null || b.bitLength() > 63 ? b : (Object) b.longValue();
        }
        m = FLOAT.matcher(t);
        if (m.matches()) return m.group(4) != null ? new BigDecimal(m.group(1)) : (Object) Double.parseDouble(t);
        m = RATIO.matcher(t);
        if (m.matches()) return Num.frac(new BigInteger(m.group(1)), new BigInteger(m.group(2)));
        throw new NumberFormatException("Invalid number: " + t);
    }
    Object atom(String t) {
        char c = t.charAt(0);
        if (Character.isDigit(c) || (c == '-' || c == '+') && t.length() > 1 && Character.isDigit(t.charAt(1))) return number(t);
        switch (t) { case "nil": return null; case "true": return true; case "false": return false; }
        if (c == ':') {
            if (t.length() == 1 || t.endsWith(":")) throw err("Invalid token: " + t);
            if (t.startsWith("::") && !edn) {
                Symbol y = Symbol.of(t.substring(2));
                Namespace cur = (Namespace) RT.NS.deref();
                if (y.ns == null) return Keyword.of(cur.name, y.name);
                String full = cur.aliases.get(y.ns);
                if (full == null) { if (!Namespace.all.containsKey(y.ns)) throw err("Invalid token: " + t); full = y.ns; }
                return Keyword.of(full, y.name);
            }
            return Keyword.of(t.substring(1));
        }
        return Symbol.of(t);
    }
    Object dispatch() {
        char c = i + 1 < s.length() ? s.charAt(i + 1) : 0;
        if (c == '{') {
            i += 2; PSet r = PSet.EMPTY;
            for (Object o : until('}')) { if (r.has(o)) throw new IllegalArgumentException("Duplicate key: " + RT.prStr(o)); r = r.conj(o); }
            return r;
        }
        if (c == '#') { i += 2; String t = token(); return t.equals("Inf") ? Double.POSITIVE_INFINITY : t.equals("-Inf") ? Double.NEGATIVE_INFINITY : Double.NaN; }
        if (c == ':') {
            i += 2; boolean auto = s.charAt(i) == ':'; if (auto) i++;
            String n = token();
            if (auto) { Namespace cur = (Namespace) RT.NS.deref(); n = n.isEmpty() ? cur.name : cur.aliases.getOrDefault(n, n); }
            AMap m = (AMap) read1(), r = PArrayMap.EMPTY;
            for (Object e : m) { Object k = ((MapEntry) e).getKey(); if (k instanceof Keyword && ((Keyword) k).sym.ns == null) k = Keyword.of(n, ((Keyword) k).sym.name); r = r.assoc(k, ((MapEntry) e).getValue()); }
            return r;
        }
        if (!edn) switch (c) {
            case '\'': i += 2; return L(Y("var"), read1());
            case '(': return anon();
            case '^': i++; return form();
            case '"': {
                i += 2; int j = i;
                while (i < s.length() && s.charAt(i) != '"') { if (s.charAt(i) == '\\') i++; i++; }
                if (i >= s.length()) throw err("EOF while reading regex");
                return Pattern.compile(s.substring(j, i++));
            }
            case '?': {
                i += 2; boolean splice = s.charAt(i) == '@'; if (splice) i++;
                Object l = read1(); Object[] a = RT.array(l);
                for (int k = 0; k + 1 < a.length; k += 2) if (a[k] == Keyword.of("clj") || a[k] == Keyword.of("default")) return a[k + 1];
                return SKIP;
            }
            case '=': throw new Unsupported("#= in source");
        }
        if (c == '"' || c == '(' || c == '\'' || c == '=') throw err("No dispatch macro for: " + c);
        i++;
        String t = token();
        if (t.isEmpty()) throw err("No dispatch macro for: " + c);
        Object v = read1();
        Object f = RT.get(readers, Symbol.of(t), null);
        if (f != null) return RT.call(f, v);
        if (t.equals("inst") || t.equals("uuid")) { if (t.equals("uuid")) return java.util.UUID.fromString((String) v); return java.util.Date.from(java.time.Instant.parse((String) v)); }
        if (dflt != null) return RT.call(dflt, Symbol.of(t), v);
        throw err("No reader function for tag " + t);
    }
    static long gensym = 0;
    static synchronized String gensym(String p) { return p + (++gensym); }
    TreeMap<Integer, Symbol> args;
    Object anon() {
        if (args != null) throw new IllegalStateException("Nested #()s are not allowed");
        args = new TreeMap<>();
        i++;
        try {
            i++;
            List<Object> l = until(')');
            Object body = rewrite(PList.ofList(l));
            int max = 0; boolean rest = args.containsKey(-1);
            for (int k : args.keySet()) max = Math.max(max, k);
            ArrayList<Object> ps = new ArrayList<>();
            for (int k = 1; k <= max; k++) ps.add(arg(k));
            if (rest) { ps.add(Y("&")); ps.add(arg(-1)); }
            return L(Y("fn*"), PVector.ofList(ps), body);
        } finally { args = null; }
    }
    Symbol arg(int n) { return args.computeIfAbsent(n, k -> Y(gensym(k < 0 ? "rest__" : "p" + k + "__") + "#")); }
    Object rewrite(Object x) {
        if (x instanceof Symbol) {
            Symbol y = (Symbol) x;
            if (y.ns == null && y.name.startsWith("%")) {
                if (y.name.equals("%")) return arg(1);
                if (y.name.equals("%&")) return arg(-1);
                if (y.name.matches("%[0-9]+")) return arg(Integer.parseInt(y.name.substring(1)));
            }
            return x;
        }
        if (x instanceof PVector) { ArrayList<Object> l = new ArrayList<>(); for (Object o : (PVector) x) l.add(rewrite(o)); return keep(x, PVector.ofList(l)); }
        if (x instanceof Sequential) { ArrayList<Object> l = new ArrayList<>(); for (Object o : (Sequential) x) l.add(rewrite(o)); return keep(x, PList.ofList(l)); }
        if (x instanceof AMap) { AMap m = PArrayMap.EMPTY; for (Object e : (AMap) x) m = m.assoc(rewrite(((MapEntry) e).getKey()), rewrite(((MapEntry) e).getValue())); return keep(x, m); }
        if (x instanceof PSet) { PSet m = PSet.EMPTY; for (Object e : (PSet) x) m = m.conj(rewrite(e)); return keep(x, m); }
        return x;
    }
    static Object keep(Object from, Object to) { Object m = RT.meta(from); return m == null ? to : ((IObj) to).withMeta(m); }

    static final class SyntaxQuote {
        final HashMap<String, Symbol> gs = new HashMap<>();
        Object top(Object x) { return q(x); }
        static boolean is(Object x, String n) { return x instanceof Cons && core(n).equals(((Cons) x).first); }
        Object q(Object x) {
            if (x instanceof Symbol) {
                Symbol y = (Symbol) x;
                if (y.ns == null && y.name.endsWith("#")) { y = gs.computeIfAbsent(y.name, k -> Y(gensym(k.substring(0, k.length() - 1) + "__") + "__auto__")); }
                else y = Interp.syntaxResolve(y);
                return L(Y("quote"), y);
            }
            if (is(x, "unquote")) return RT.first(RT.next(x));
            if (is(x, "unquote-splicing")) throw new IllegalStateException("splice not in list");
            if (x instanceof PVector) return L(core("vec"), cat((Iterable<?>) x));
            if (x instanceof Sequential) {
                if (RT.seq(x) == null) return L(Y("quote"), PList.EMPTY);
                return L(core("seq"), cat((Iterable<?>) x));
            }
            if (x instanceof AMap) {
                ArrayList<Object> l = new ArrayList<>();
                for (Object e : (AMap) x) { l.add(((MapEntry) e).getKey()); l.add(((MapEntry) e).getValue()); }
                return L(core("apply"), core("hash-map"), cat(l));
            }
            if (x instanceof PSet) return L(core("set"), cat((Iterable<?>) x));
            if (x instanceof Keyword || x == null || x instanceof String || x instanceof Number || x instanceof Boolean || x instanceof Character) return x;
            return L(Y("quote"), x);
        }
        Object cat(Iterable<?> xs) {
            ArrayList<Object> l = new ArrayList<>();
            l.add(core("concat"));
            for (Object o : xs) l.add(is(o, "unquote-splicing") ? RT.first(RT.next(o)) : L(core("list"), q(o)));
            return PList.ofList(l);
        }
    }
}
