package ljc;

import java.io.*;
import java.math.*;
import java.util.*;
import java.util.regex.*;

/** The run time: sequences, collections, equality, printing. */
public final class RT {
    static final Object[] NOARGS = new Object[0];
    static final Namespace CORE = Namespace.of("clojure.core");
    static Var dyn(String n, Object v) { Var x = CORE.intern(n); x.dynamic = true; x.root = v; return x; }
    static final Var OUT = dyn("*out*", null), ERR = dyn("*err*", null), IN = dyn("*in*", null), NS = dyn("*ns*", Namespace.of("user")),
        READABLY = dyn("*print-readably*", true), MATH_CONTEXT = dyn("*math-context*", null), PRINT_META = dyn("*print-meta*", false),
        FILE = dyn("*file*", "NO_SOURCE"), CLARGS = dyn("*command-line-args*", null), ASSERT = dyn("*assert*", true),
        PRLEN = dyn("*print-length*", null), PRLEVEL = dyn("*print-level*", null), WARN = dyn("*warn-on-reflection*", false),
        FLUSHNL = dyn("*flush-on-newline*", true), NSMAPS = dyn("*print-namespace-maps*", false),
        V1 = dyn("*1", null), V2 = dyn("*2", null), V3 = dyn("*3", null), VE = dyn("*e", null), READEVAL = dyn("*read-eval*", true),
        DATAREADERS = dyn("*data-readers*", PArrayMap.EMPTY), UNCHECKED = dyn("*unchecked-math*", false);

    @SuppressWarnings("unchecked")
    static <T extends Throwable> RuntimeException sneaky(Throwable t) throws T { throw (T) t; }

    static boolean truthy(Object x) { return x != null && x != Boolean.FALSE && !(x instanceof Boolean && !((Boolean) x)); }

    static IFn fn(Object f) {
        if (f instanceof IFn) return (IFn) f;
        if (f == null) throw new NullPointerException("Cannot invoke \"clojure.lang.IFn.invoke()\" because the function is null");
        throw new ClassCastException("class " + className(f) + " cannot be cast to class clojure.lang.IFn");
    }
    static String className(Object o) { return o == null ? "nil" : o.getClass().getName().replace("ljc.", "clojure.lang."); }
    static Object call(Object f, Object... a) { return fn(f).invoke(a); }

    // --- sequences
    static ISeq seq(Object o) {
        if (o == null) return null;
        if (o instanceof ASeq) return (ASeq) o;
        if (o instanceof LazySeq) return ((LazySeq) o).seq();
        if (o instanceof PVector) { PVector v = (PVector) o; return v.n == 0 ? null : new ArrSeq(v.s.a, 0, v.n, null); }
        if (o instanceof PList) return null;
        if (o instanceof CharSequence) { CharSequence s = (CharSequence) o; return s.length() == 0 ? null : new StrSeq(s, 0, null); }
        if (o instanceof Object[]) { Object[] a = (Object[]) o; return a.length == 0 ? null : new ArrSeq(a, 0, a.length, null); }
        if (o instanceof Iterable) return IterSeq.of(((Iterable<?>) o).iterator());
        if (o instanceof Map) {
            ArrayList<Object> l = new ArrayList<>();
            for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) l.add(new MapEntry(e.getKey(), e.getValue()));
            return IterSeq.of(l.iterator());
        }
        if (o.getClass().isArray()) {
            int n = java.lang.reflect.Array.getLength(o); Object[] a = new Object[n];
            for (int i = 0; i < n; i++) a[i] = box(java.lang.reflect.Array.get(o, i));
            return n == 0 ? null : new ArrSeq(a, 0, n, null);
        }
        throw new IllegalArgumentException("Don't know how to create ISeq from: " + className(o));
    }
    static Object seqOrEmpty(Object o) { ISeq s = seq(o); return s == null ? PList.EMPTY : s; }
    static Object box(Object x) {
        if (x instanceof Integer || x instanceof Short || x instanceof Byte) return ((Number) x).longValue();
        if (x instanceof Float) return ((Float) x).doubleValue();
        return x;
    }
    static Object first(Object o) {
        if (o instanceof ASeq) return ((ASeq) o).first();
        if (o instanceof PVector) { PVector v = (PVector) o; return v.n == 0 ? null : v.s.a[0]; }
        ISeq s = seq(o); return s == null ? null : s.first();
    }
    static ISeq next(Object o) { ISeq s = seq(o); return s == null ? null : s.next(); }
    static Object more(Object o) {
        ISeq s = seq(o);
        if (s == null) return PList.EMPTY;
        return s instanceof ASeq ? ((ASeq) s).more() : ((LazySeq) s).more();
    }
    static Iterator<?> iter(Object o) {
        if (o == null) return Collections.emptyIterator();
        if (o instanceof Iterable) return ((Iterable<?>) o).iterator();
        final ISeq s0 = seq(o);
        return new Iterator<Object>() {
            ISeq s = s0;
            public boolean hasNext() { return s != null; }
            public Object next() { Object x = s.first(); s = s.next(); return x; }
        };
    }
    static Object cons(Object x, Object coll) {
        if (coll == null) return new Cons(x, PList.EMPTY, null, true);
        if (coll instanceof ASeq || coll instanceof LazySeq || coll instanceof PList) return new Cons(x, coll, null, false);
        return new Cons(x, seq(coll), null, false);
    }
    static ArrayList<Object> list(Object coll) {
        ArrayList<Object> l = new ArrayList<>();
        for (Iterator<?> it = iter(coll); it.hasNext(); ) l.add(it.next());
        return l;
    }
    static Object[] array(Object coll) { return coll instanceof PVector ? ((PVector) coll).toArray() : list(coll).toArray(); }
    static long count(Object o) {
        if (o == null) return 0;
        if (o instanceof PVector) return ((PVector) o).n;
        if (o instanceof AMap) return ((AMap) o).count();
        if (o instanceof PSet) return ((PSet) o).count();
        if (o instanceof CharSequence) return ((CharSequence) o).length();
        if (o instanceof TMap) return ((TMap) o).m.count();
        if (o instanceof TVec) return ((TVec) o).v.n;
        if (o instanceof TSet) return ((TSet) o).s.count();
        if (o instanceof Collection) return ((Collection<?>) o).size();
        if (o instanceof Map) return ((Map<?, ?>) o).size();
        if (o.getClass().isArray()) return java.lang.reflect.Array.getLength(o);
        if (o instanceof Sequential) { long n = 0; for (Object x : (Sequential) o) n++; return n; }
        throw new UnsupportedOperationException("count not supported on this type: " + className(o));
    }
    static boolean isSeqable(Object o) {
        return o == null || o instanceof Sequential || o instanceof AMap || o instanceof PSet || o instanceof CharSequence || o instanceof Iterable || o instanceof Map || o.getClass().isArray();
    }
    static boolean isInt(Object x) { return x instanceof Long || x instanceof Integer || x instanceof Short || x instanceof Byte; }
    static boolean isInteger(Object x) { return isInt(x) || x instanceof BigInteger; }

    static Object get(Object c, Object k, Object d) {
        if (c instanceof AMap) return ((AMap) c).get(k, d);
        if (c == null) return d;
        if (c instanceof PSet) return ((PSet) c).has(k) ? ((PSet) c).m.key(k) : d;
        if (c instanceof PVector) {
            if (isInt(k)) { long i = ((Number) k).longValue(); PVector v = (PVector) c; if (i >= 0 && i < v.n) return v.s.a[(int) i]; }
            return d;
        }
        if (c instanceof TMap) { ((TMap) c).ok(); return ((TMap) c).m.get(k, d); }
        if (c instanceof TSet) { ((TSet) c).ok(); return ((TSet) c).s.has(k) ? ((TSet) c).s.m.key(k) : d; }
        if (c instanceof TVec) return get(((TVec) c).v, k, d);
        if (c instanceof CharSequence && isInt(k)) { long i = ((Number) k).longValue(); return i >= 0 && i < ((CharSequence) c).length() ? (Object) ((CharSequence) c).charAt((int) i) : d; }
        if (c instanceof Map) { Map<?, ?> m = (Map<?, ?>) c; return m.containsKey(k) ? box(m.get(k)) : d; }
        if (c.getClass().isArray() && isInt(k)) { long i = ((Number) k).longValue(); return i >= 0 && i < java.lang.reflect.Array.getLength(c) ? box(java.lang.reflect.Array.get(c, (int) i)) : d; }
        return d;
    }
    static boolean contains(Object c, Object k) {
        if (c == null) return false;
        if (c instanceof AMap) return ((AMap) c).has(k);
        if (c instanceof PSet) return ((PSet) c).has(k);
        if (c instanceof PVector) { if (!isInt(k)) return false; long i = ((Number) k).longValue(); return i >= 0 && i < ((PVector) c).n; }
        if (c instanceof TMap) { ((TMap) c).ok(); return ((TMap) c).m.has(k); }
        if (c instanceof TSet) { ((TSet) c).ok(); return ((TSet) c).s.has(k); }
        if (c instanceof TVec) return contains(((TVec) c).v, k);
        if (c instanceof Map) return ((Map<?, ?>) c).containsKey(k);
        if (c instanceof Set) return ((Set<?>) c).contains(k);
        if (c instanceof CharSequence || c.getClass().isArray()) {
            if (!isInt(k)) throw new IllegalArgumentException("contains? not supported on type: " + className(c));
            long i = ((Number) k).longValue(); return i >= 0 && i < count(c);
        }
        throw new IllegalArgumentException("contains? not supported on type: " + className(c));
    }
    static Object nth(Object c, long i, Object d, boolean hasD) {
        if (c == null) return d;
        if (c instanceof PVector) { PVector v = (PVector) c; if (i >= 0 && i < v.n) return v.s.a[(int) i]; if (hasD) return d; throw new IndexOutOfBoundsException(); }
        if (c instanceof CharSequence) { CharSequence s = (CharSequence) c; if (i >= 0 && i < s.length()) return s.charAt((int) i); if (hasD) return d; throw new StringIndexOutOfBoundsException((int) i); }
        if (c instanceof Matcher) { return ((Matcher) c).group((int) i); }
        if (c instanceof TVec) return nth(((TVec) c).v, i, d, hasD);
        if (c instanceof Sequential || c.getClass().isArray() || c instanceof List || c instanceof Eduction) {
            if (c instanceof AMap) throw new UnsupportedOperationException("nth not supported on this type: PersistentArrayMap");
            Iterator<?> it = iter(c);
            if (i >= 0) while (it.hasNext()) { Object x = it.next(); if (i-- == 0) return x; }
            if (hasD) return d;
            throw new IndexOutOfBoundsException();
        }
        throw new UnsupportedOperationException("nth not supported on this type: " + className(c));
    }
    static Object conj(Object c, Object x) {
        if (c == null) return new Cons(x, PList.EMPTY, null, true);
        if (c instanceof PVector) return c instanceof MapEntry ? PVector.of(((MapEntry) c).toArray()).conj(x) : ((PVector) c).conj(x);
        if (c instanceof PSet) return ((PSet) c).conj(x);
        if (c instanceof AMap) {
            AMap m = (AMap) c;
            if (x == null) return m;
            if (x instanceof PVector) { PVector v = (PVector) x; if (v.n != 2) throw new IllegalArgumentException("Vector arg to map conj must be a pair"); return m.assoc(v.nth(0), v.nth(1)); }
            if (x instanceof Map.Entry) { Map.Entry<?, ?> e = (Map.Entry<?, ?>) x; return m.assoc(e.getKey(), e.getValue()); }
            for (ISeq s = seq(x); s != null; s = s.next()) { Map.Entry<?, ?> e = (Map.Entry<?, ?>) s.first(); m = m.assoc(e.getKey(), e.getValue()); }
            return m;
        }
        if (c instanceof PList) return new Cons(x, c, ((PList) c).meta, true);
        if (c instanceof Cons) return new Cons(x, c, ((Cons) c).meta, ((Cons) c).list);
        if (c instanceof ASeq || c instanceof LazySeq) return new Cons(x, c, null, false);
        throw new ClassCastException("class " + className(c) + " cannot be cast to class clojure.lang.IPersistentCollection");
    }
    static Object assoc(Object c, Object k, Object v) {
        if (c == null) return PArrayMap.EMPTY.assoc(k, v);
        if (c instanceof AMap) return ((AMap) c).assoc(k, v);
        if (c instanceof PVector) { if (!isInt(k)) throw new IllegalArgumentException("Key must be integer"); return ((PVector) c).assocN(((Number) k).intValue(), v); }
        throw new ClassCastException("class " + className(c) + " cannot be cast to class clojure.lang.Associative");
    }
    static Object dissoc(Object c, Object k) {
        if (c == null) return null;
        if (c instanceof AMap) return ((AMap) c).without(k);
        throw new ClassCastException("class " + className(c) + " cannot be cast to class clojure.lang.IPersistentMap");
    }
    static Object meta(Object o) { return o instanceof IObj ? ((IObj) o).meta() : null; }

    static Object reduce(IFn f, Object init, Object coll) {
        if (coll instanceof Eduction) return reduceEd(f, init, (Eduction) coll);
        Object acc = init;
        for (Iterator<?> it = iter(coll); it.hasNext(); ) {
            acc = f.invoke(new Object[]{acc, it.next()});
            if (acc instanceof Reduced) return ((Reduced) acc).v;
        }
        return acc;
    }
    static Object reduceEd(final IFn f, Object init, Eduction e) {
        // as Clojure's: transduce with (completing f)
        return transduce(e.xf, new Builtin("completing", 0, 2, a -> a.length == 1 ? a[0] : f.invoke(a)), init, e.coll);
    }
    static Object transduce(Object xform, Object f, Object init, Object coll) {
        IFn g = fn(call(xform, f));
        Object r = reduce(g, init, coll);
        return g.invoke(new Object[]{r});
    }

    // --- equality, hashing, order
    static boolean equiv(Object a, Object b) {
        if (a == b) return true;
        if (a == null || b == null) return false;
        if (a instanceof Number) return b instanceof Number && Num.equal(a, b);
        if (a instanceof Sequential) {
            if (!(b instanceof Sequential) && !(b instanceof List)) return false;
            if (a instanceof PVector && b instanceof PVector) {
                PVector x = (PVector) a, y = (PVector) b;
                if (x.n != y.n) return false;
                for (int i = 0; i < x.n; i++) if (!equiv(x.s.a[i], y.s.a[i])) return false;
                return true;
            }
            Iterator<?> i = iter(a), j = iter(b);
            while (i.hasNext() && j.hasNext()) if (!equiv(i.next(), j.next())) return false;
            return i.hasNext() == j.hasNext();
        }
        if (a instanceof AMap) {
            if (!(b instanceof AMap)) return false;
            AMap x = (AMap) a, y = (AMap) b;
            if (x.count() != y.count()) return false;
            for (Object e : x) { Object v = y.find(((MapEntry) e).getKey()); if (v == AMap.NONE || !equiv(((MapEntry) e).getValue(), v)) return false; }
            return true;
        }
        if (a instanceof PSet) {
            if (!(b instanceof PSet)) return false;
            PSet x = (PSet) a, y = (PSet) b;
            if (x.count() != y.count()) return false;
            for (Object e : x) if (!y.has(e)) return false;
            return true;
        }
        return a.equals(b);
    }
    static int hash(Object o) {
        if (o == null) return 0;
        if (o instanceof Number) return Num.hash(o);
        return o.hashCode();
    }
    @SuppressWarnings("unchecked")
    static int compare(Object a, Object b) {
        if (a == b) return 0;
        if (a == null) return -1;
        if (b == null) return 1;
        if (a instanceof Number && b instanceof Number) return Num.compare(a, b);
        if (a instanceof Number) Num.cat(b);
        if (!(a instanceof Comparable)) throw new ClassCastException("class " + className(a) + " cannot be cast to class java.lang.Comparable");
        if (!(a instanceof Symbol || a instanceof Keyword || a instanceof PVector || a.getClass().isInstance(b) || a instanceof java.time.chrono.ChronoLocalDate))
            throw new ClassCastException("class " + className(b) + " cannot be cast to class " + className(a));
        return ((Comparable<Object>) a).compareTo(b);
    }
    static int cmpWith(IFn f, Object x, Object y) {
        Object r = f.invoke(new Object[]{x, y});
        if (r instanceof Boolean) {
            if ((Boolean) r) return -1;
            return truthy(f.invoke(new Object[]{y, x})) ? 1 : 0;
        }
        return ((Number) r).intValue();
    }
    static Object sort(IFn cmp, Object coll) {
        Object[] a = array(coll);
        if (a.length == 0) return PList.EMPTY;
        Comparator<Object> c = cmp == null ? RT::compare : (x, y) -> cmpWith(cmp, x, y);
        Arrays.sort(a, c);
        return new ArrSeq(a, 0, a.length, null);
    }
    static AMap hierarchy = PArrayMap.EMPTY;     // child -> set of parents
    static synchronized void derive(Object c, Object p) {
        Object s = hierarchy.get(c, PSet.EMPTY); hierarchy = hierarchy.assoc(c, ((PSet) s).conj(p));
    }
    static Object ancestors(Object c) {
        PSet r = PSet.EMPTY; Object s = hierarchy.get(c, null);
        if (s != null) for (Object q : (PSet) s) { r = r.conj(q); Object t = ancestors(q); if (t != null) for (Object x : (PSet) t) r = r.conj(x); }
        if (c instanceof Class) for (Class<?> k : supers((Class<?>) c)) r = r.conj(k);
        return seq(r) == null ? null : r;
    }
    static LinkedHashSet<Class<?>> supers(Class<?> c) {
        LinkedHashSet<Class<?>> out = new LinkedHashSet<>(); ArrayDeque<Class<?>> todo = new ArrayDeque<>(); todo.add(c);
        while (!todo.isEmpty()) {
            Class<?> k = todo.poll();
            ArrayList<Class<?>> up = new ArrayList<>(); if (k.getSuperclass() != null) up.add(k.getSuperclass()); up.addAll(Arrays.asList(k.getInterfaces()));
            for (Class<?> u : up) if (out.add(u)) todo.add(u);
        }
        return out;
    }
    static boolean isa(Object c, Object p) {
        if (equiv(c, p)) return true;
        if (c instanceof Class && p instanceof Class && ((Class<?>) p).isAssignableFrom((Class<?>) c)) return true;
        Object s = hierarchy.get(c, null);
        if (s != null) for (Object q : (PSet) s) if (isa(q, p)) return true;
        if (c instanceof PVector && p instanceof PVector && ((PVector) c).n == ((PVector) p).n) {
            for (int i = 0; i < ((PVector) c).n; i++) if (!isa(((PVector) c).nth(i), ((PVector) p).nth(i))) return false;
            return true;
        }
        return false;
    }

    // --- printing
    static MultiFn printMethod;      // set by Core
    static String str(Object x) { return x == null ? "" : x.toString(); }
    static String prStr(Object x) {
        StringWriter w = new StringWriter();
        AMap saved = Var.bindings.get();
        if (!truthy(READABLY.deref())) Var.bindings.set((saved == null ? PArrayMap.EMPTY : saved).assoc(READABLY, new Object[]{true}));
        try { print(x, w); } catch (IOException e) { throw sneaky(e); } finally { Var.bindings.set(saved); }
        return w.toString();
    }
    static final Symbol NOMETHOD = Symbol.of("none");
    static void print(Object x, Writer w) throws IOException {
        if (printMethod != null) {
            AMap ms = printMethod.methods;
            if (ms.count() > 1) {     // anything but the default
                Object t = get(meta(x), Keyword.of("type"), null);
                Object dv = t instanceof Keyword ? t : x == null ? null : x.getClass();
                Object m = ms.find(dv);
                if (m == AMap.NONE && !(t instanceof Keyword) && x != null) {
                    Class<?> best = null;
                    for (Object e : ms) { Object k = ((MapEntry) e).getKey(); if (k instanceof Class && ((Class<?>) k).isInstance(x) && (best == null || best.isAssignableFrom((Class<?>) k))) { best = (Class<?>) k; m = ((MapEntry) e).getValue(); } }
                }
                if (m != AMap.NONE && m != defaultPrint) { call(m, x, w); return; }
            }
        }
        printPlain(x, w);
    }
    static IFn defaultPrint;
    static String escape(String s) {
        StringBuilder b = new StringBuilder("\"");
        for (int i = 0; i < s.length(); i++) {
            char c = s.charAt(i);
            switch (c) {
                case '"': b.append("\\\""); break;
                case '\\': b.append("\\\\"); break;
                case '\n': b.append("\\n"); break;
                case '\t': b.append("\\t"); break;
                case '\r': b.append("\\r"); break;
                case '\f': b.append("\\f"); break;
                case '\b': b.append("\\b"); break;
                default: b.append(c);
            }
        }
        return b.append('"').toString();
    }
    static void printPlain(Object x, Writer w) throws IOException {
        boolean rd = truthy(READABLY.deref());
        if (x == null) w.write("nil");
        else if (x instanceof String) w.write(rd ? escape((String) x) : (String) x);
        else if (x instanceof Character) {
            if (!rd) { w.write((Character) x); return; }
            char c = (Character) x;
            w.write(c == '\n' ? "\\newline" : c == ' ' ? "\\space" : c == '\t' ? "\\tab" : c == '\r' ? "\\return" : c == '\b' ? "\\backspace" : c == '\f' ? "\\formfeed" : "\\" + c);
        }
        else if (x instanceof BigDecimal) w.write(x + "M");
        else if (x instanceof BigInteger) w.write(x + "N");
        else if (x instanceof Double && (((Double) x).isInfinite() || ((Double) x).isNaN())) w.write(((Double) x).isNaN() ? "##NaN" : (Double) x > 0 ? "##Inf" : "##-Inf");
        else if (x instanceof PVector) { printSeq("[", " ", "]", (Iterable<?>) x, w); }
        else if (x instanceof Sequential) { printSeq("(", " ", ")", (Iterable<?>) x, w); }
        else if (x instanceof Eduction) { printSeq("(", " ", ")", (Iterable<?>) x, w); }
        else if (x instanceof PSet) { printSeq("#{", " ", "}", (Iterable<?>) x, w); }
        else if (x instanceof AMap) {
            w.write("{");
            boolean first = true;
            for (Object e : (AMap) x) {
                if (!first) w.write(", ");
                first = false;
                print(((MapEntry) e).getKey(), w); w.write(" "); print(((MapEntry) e).getValue(), w);
            }
            w.write("}");
        }
        else if (x instanceof RandomAccess) printSeq("[", " ", "]", (Iterable<?>) x, w);
        else if (x instanceof Set) printSeq("#{", " ", "}", (Iterable<?>) x, w);
        else if (x instanceof Map) {
            boolean first = true;
            w.write("{");
            for (Map.Entry<?, ?> e : ((Map<?, ?>) x).entrySet()) { if (!first) w.write(", "); first = false; print(e.getKey(), w); w.write(" "); print(e.getValue(), w); }
            w.write("}");
        }
        else if (x instanceof Collection) printSeq("(", " ", ")", (Iterable<?>) x, w);
        else if (x instanceof Pattern) w.write("#\"" + x + "\"");
        else if (x instanceof Class) w.write(((Class<?>) x).getName());
        else if (x instanceof Throwable) { w.write("#error "); print(Core.throwableMap((Throwable) x), w); }
        else if (x instanceof Number || x instanceof Boolean || x instanceof Symbol || x instanceof Keyword || x instanceof Var) w.write(x.toString());
        else w.write("#object[" + className(x) + " \"" + x + "\"]");
    }
    static void printSeq(String open, String sep, String close, Iterable<?> c, Writer w) throws IOException {
        w.write(open);
        boolean first = true;
        for (Object o : c) { if (!first) w.write(sep); first = false; print(o, w); }
        w.write(close);
    }
}
