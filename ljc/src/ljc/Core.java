package ljc;

import java.io.*;
import java.math.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.regex.*;

/** The part of clojure.core which is not written in Clojure. */
final class Core {
    static void d(String n, int min, int max, Builtin.F f) { Var v = RT.CORE.intern(n); v.root = new Builtin(n, min, max, f); }
    static void d(String n, int k, Builtin.F f) { d(n, k, k, f); }
    static Keyword K(String s) { return Keyword.of(s); }
    static IFn fn(Object o) { return RT.fn(o); }
    /** A comparator: a function, or an object of Java which is one. */
    @SuppressWarnings("unchecked")
    static IFn cmp(Object o) {
        if (o instanceof IFn || !(o instanceof Comparator)) return fn(o);
        final Comparator<Object> c = (Comparator<Object>) o;
        return new Builtin("comparator", 2, 2, a -> (long) c.compare(a[0], a[1]));
    }
    static long lng(Object o) { return ((Number) o).longValue(); }
    static int i(Object o) { return ((Number) o).intValue(); }
    static Object rest(Object[] a, int from) { return a.length > from ? new ArrSeq(a, from, a.length, null) : null; }

    static Object apply(Object f, Object[] lead, Object last) {
        if (f instanceof Var) f = ((Var) f).deref();
        if (f instanceof Interp.Fn) {
            Interp.Fn g = (Interp.Fn) f;
            if (g.node.variadic != null) {
                int req = g.node.variadic.req;
                ArrayList<Object> l = new ArrayList<>(Arrays.asList(lead)); ISeq s = RT.seq(last);
                int most = Math.max(req, g.node.fixed.length - 1);
                while (l.size() < most && s != null) { l.add(s.first()); s = s.next(); }
                if (s == null) return g.invoke(l.toArray());
                Object r = s;
                for (int k = l.size() - 1; k >= req; k--) r = new Cons(l.get(k), r, null, false);
                return g.applyTo(l.subList(0, req).toArray(), r);
            }
        }
        ArrayList<Object> l = new ArrayList<>(Arrays.asList(lead));
        for (Iterator<?> it = RT.iter(last); it.hasNext(); ) l.add(it.next());
        return fn(f).invoke(l.toArray());
    }
    static Object[] args(Object first, Object[] a, int from) {
        Object[] b = new Object[a.length - from + 1]; b[0] = first; System.arraycopy(a, from, b, 1, a.length - from); return b;
    }
    static AMap throwableMap(Throwable t) {
        PVector via = PVector.EMPTY; Throwable root = t;
        for (Throwable x = t; x != null; x = x.getCause()) {
            AMap m = AMap.of(K("type"), Symbol.of(RT.className(x)));
            if (x.getMessage() != null) m = m.assoc(K("message"), x.getMessage());
            if (x instanceof ExInfo && ((ExInfo) x).data != null) m = m.assoc(K("data"), ((ExInfo) x).data);
            m = m.assoc(K("at"), PVector.EMPTY);
            via = via.conj(m); root = x;
        }
        AMap r = AMap.of(K("via"), via, K("trace"), PVector.EMPTY);
        if (root.getMessage() != null) r = r.assoc(K("cause"), root.getMessage());
        if (root instanceof ExInfo && ((ExInfo) root).data != null) r = r.assoc(K("data"), ((ExInfo) root).data);
        return r;
    }
    /** Methods of this interpreter's own objects which programs call by name. */
    static Object ljcMethod(Object o, String n, Object[] a) {
        switch (n) {
            case "toString": return o.toString();
            case "hashCode": return (long) o.hashCode();
            case "equals": return RT.equiv(o, a[0]);
            case "equiv": return RT.equiv(o, a[0]);
            case "getClass": return o.getClass();
            case "invoke": return fn(o).invoke(a);
            case "applyTo": return apply(o, RT.NOARGS, a[0]);
            case "size": case "count": case "length": if (!(o instanceof AFn) || RT.isSeqable(o)) return RT.count(o); break;
            case "getKey": case "key": if (o instanceof MapEntry) return ((MapEntry) o).getKey(); break;
            case "getValue": case "val": if (o instanceof MapEntry) return ((MapEntry) o).getValue(); break;
            case "get": case "valAt": if (a.length == 1) return RT.get(o, a[0], null); if (a.length == 2) return RT.get(o, a[0], a[1]); break;
            case "containsKey": return RT.contains(o, a[0]);
            case "contains": if (o instanceof PSet) return RT.contains(o, a[0]); for (Object x : RT.list(o)) if (RT.equiv(x, a[0])) return true; return false;
            case "isEmpty": return RT.seq(o) == null;
            case "seq": return RT.seq(o);
            case "nth": return RT.nth(o, lng(a[0]), a.length > 1 ? a[1] : null, a.length > 1);
            case "indexOf": { int k = 0; for (Object x : RT.list(o)) { if (RT.equiv(x, a[0])) return (long) k; k++; } return -1L; }
            case "iterator": return RT.iter(o);
            case "compareTo": return (long) RT.compare(o, a[0]);
            case "getName": if (o instanceof Keyword) return ((Keyword) o).sym.name; if (o instanceof Symbol) return ((Symbol) o).name; if (o instanceof Namespace) return Symbol.of(null, ((Namespace) o).name); break;
            case "getNamespace": if (o instanceof Keyword) return ((Keyword) o).sym.ns; if (o instanceof Symbol) return ((Symbol) o).ns; break;
            case "sym": if (o instanceof Keyword) return ((Keyword) o).sym; if (o instanceof Var) return ((Var) o).sym; break;
            case "ns": if (o instanceof Var) return ((Var) o).ns; break;
            case "meta": return RT.meta(o);
            case "withMeta": return ((IObj) o).withMeta(a[0]);
            case "deref": if (o instanceof IDeref) return ((IDeref) o).deref(); break;
            case "run": case "call": if (o instanceof AFn) return ((AFn) o).invoke(RT.NOARGS); break;
            case "addMethod": if (o instanceof MultiFn) { ((MultiFn) o).methods = ((MultiFn) o).methods.assoc(a[0], a[1]); return o; } break;
        }
        return AMap.NONE;
    }
    static Object sumFold(Object[] a, Object zero, java.util.function.BinaryOperator<Object> op) {
        Object r = zero; for (Object x : a) r = op.apply(r, x); return r;
    }
    static boolean chain(Object[] a, java.util.function.IntPredicate p) {
        for (int k = 0; k + 1 < a.length; k++) if (!p.test(Num.compare(a[k], a[k + 1]))) return false;
        if (a.length == 1) return true;
        return true;
    }
    static Object promote(Object x) { return x instanceof BigInteger && ((BigInteger) x).bitLength() < 64 ? (Object) ((BigInteger) x).longValue() : x; }
    static Object bigUp(Object x) { return RT.isInt(x) ? BigInteger.valueOf(lng(x)) : x; }
    static Writer out() { Object o = RT.OUT.deref(); return (Writer) o; }
    static void printAll(Object[] a, boolean readably, String end) throws IOException {
        AMap saved = Var.bindings.get();
        if (!readably) Var.bindings.set((saved == null ? PArrayMap.EMPTY : saved).assoc(RT.READABLY, new Object[]{null}));
        try {
            Writer w = out();
            for (int k = 0; k < a.length; k++) { if (k > 0) w.write(" "); RT.print(a[k], w); }
        } finally { Var.bindings.set(saved); }
        out().write(end);
        if (end.length() > 0 && RT.truthy(RT.FLUSHNL.deref())) out().flush();
    }
    static Object groups(Matcher m) {
        if (m.groupCount() == 0) return m.group();
        Object[] g = new Object[m.groupCount() + 1];
        for (int k = 0; k < g.length; k++) g[k] = m.group(k);
        return PVector.of(g);
    }
    static BigDecimal bigdec(Object x) {
        if (x instanceof String) return new BigDecimal((String) x);
        if (x instanceof Double) return new BigDecimal((Double) x);
        return Num.dec(x);
    }
    static Object keyw(Object x) { return x instanceof Keyword ? x : x instanceof Symbol ? Keyword.of((Symbol) x) : x instanceof String ? Keyword.of((String) x) : null; }
    static String name(Object x) {
        if (x instanceof String) return (String) x;
        if (x instanceof Keyword) return ((Keyword) x).sym.name;
        if (x instanceof Symbol) return ((Symbol) x).name;
        if (x == null) throw new NullPointerException("name of nil");
        throw new ClassCastException("class " + RT.className(x) + " cannot be cast to class clojure.lang.Named");
    }
    static Namespace nsOf(Object x) {
        if (x instanceof Namespace) return (Namespace) x;
        Namespace n = Namespace.all.get(x.toString());
        if (n == null) throw new RuntimeException("No namespace: " + x + " found");
        return n;
    }
    static java.io.Reader reader(Object x) throws IOException {
        if (x instanceof java.io.Reader) return (java.io.Reader) x;
        if (x instanceof InputStream) return new BufferedReader(new InputStreamReader((InputStream) x, StandardCharsets.UTF_8));
        if (x instanceof File) return new BufferedReader(new InputStreamReader(new FileInputStream((File) x), StandardCharsets.UTF_8));
        if (x instanceof Path) return reader(((Path) x).toFile());
        if (x instanceof java.net.URL) return reader(((java.net.URL) x).openStream());
        if (x instanceof String) return reader(new File((String) x));
        throw new IllegalArgumentException("Cannot open <" + RT.prStr(x) + "> as a Reader.");
    }
    static String slurp(java.io.Reader r) throws IOException {
        StringBuilder b = new StringBuilder(); char[] c = new char[8192]; int n;
        while ((n = r.read(c)) > 0) b.append(c, 0, n);
        return b.toString();
    }
    static Object into(Object to, Object from) {
        if (to == null || to instanceof AMap || to instanceof PSet || to instanceof PVector || true) {
            Object r = to;
            if (from instanceof Eduction) return RT.reduceEd(new Builtin("conj", 2, 2, a -> RT.conj(a[0], a[1])), to, (Eduction) from);
            for (Iterator<?> it = RT.iter(from); it.hasNext(); ) r = RT.conj(r, it.next());
            return r;
        }
        return null;
    }
    static IFn core(String n) { return (IFn) RT.CORE.intern(n).root; }
    static final Random random = new Random(1);

    static void init() {
        RT.CORE.intern("unquote").root = Var.UNBOUND;
        // --- sequences and collections
        d("seq", 1, a -> RT.seq(a[0]));
        d("first", 1, a -> RT.first(a[0]));
        d("next", 1, a -> RT.next(a[0]));
        d("rest", 1, a -> RT.more(a[0]));
        d("cons", 2, a -> RT.cons(a[0], a[1]));
        d("conj", 0, -1, a -> { if (a.length == 0) return PVector.EMPTY; Object r = a[0]; for (int k = 1; k < a.length; k++) r = RT.conj(r, a[k]); return r; });
        d("count", 1, a -> RT.count(a[0]));
        d("bounded-count", 2, a -> { if (a[1] instanceof PVector || a[1] instanceof AMap || a[1] instanceof PSet || a[1] == null || a[1] instanceof String) return RT.count(a[1]); long n = 0, m = lng(a[0]); ISeq s = RT.seq(a[1]); while (s != null && n < m) { n++; s = s.next(); } return n; });
        d("counted?", 1, a -> a[0] instanceof PVector || a[0] instanceof AMap || a[0] instanceof PSet || a[0] instanceof PList || a[0] instanceof Cons && ((Cons) a[0]).list);
        d("nth", 2, 3, a -> RT.nth(a[0], lng(a[1]), a.length > 2 ? a[2] : null, a.length > 2));
        d("get", 2, 3, a -> RT.get(a[0], a[1], a.length > 2 ? a[2] : null));
        d("contains?", 2, a -> RT.contains(a[0], a[1]));
        d("assoc", 3, -1, a -> { if (a.length % 2 == 0) throw new IllegalArgumentException("assoc expects even number of arguments after map/vector, found odd number"); Object r = a[0]; for (int k = 1; k < a.length; k += 2) r = RT.assoc(r, a[k], a[k + 1]); return r; });
        d("dissoc", 1, -1, a -> { Object r = a[0]; for (int k = 1; k < a.length; k++) r = RT.dissoc(r, a[k]); return r; });
        d("disj", 1, -1, a -> { if (a[0] == null) return null; Object r = a[0]; for (int k = 1; k < a.length; k++) r = ((PSet) r).disj(a[k]); return r; });
        d("list", 0, -1, a -> PList.of(a));
        d("vector", 0, -1, a -> PVector.of(a.clone()));
        d("vec", 1, a -> a[0] instanceof PVector && !(a[0] instanceof MapEntry) ? a[0] : PVector.of(RT.array(a[0])));
        d("hash-map", 0, -1, a -> { if (a.length % 2 == 1) throw new IllegalArgumentException("No value supplied for key: " + a[a.length - 1]); return AMap.of(a); });
        d("array-map", 0, -1, a -> { if (a.length % 2 == 1) throw new IllegalArgumentException("No value supplied for key: " + a[a.length - 1]); return AMap.of(a); });
        d("hash-set", 0, -1, a -> { PSet r = PSet.EMPTY; for (Object o : a) r = r.conj(o); return r; });
        d("set", 1, a -> { if (a[0] instanceof PSet) return a[0]; PSet r = PSet.EMPTY; for (Iterator<?> it = RT.iter(a[0]); it.hasNext(); ) r = r.conj(it.next()); return r; });
        d("sorted-map", 0, -1, a -> { AMap m = PSortedMap.make(null); for (int k = 0; k + 1 < a.length; k += 2) m = m.assoc(a[k], a[k + 1]); return m; });
        d("sorted-map-by", 1, -1, a -> { AMap m = PSortedMap.make(cmp(a[0])); for (int k = 1; k + 1 < a.length; k += 2) m = m.assoc(a[k], a[k + 1]); return m; });
        d("sorted-set", 0, -1, a -> { PSet s = new PSet(PSortedMap.make(null), null); for (Object o : a) s = s.conj(o); return s; });
        d("sorted-set-by", 1, -1, a -> { PSet s = new PSet(PSortedMap.make(cmp(a[0])), null); for (int k = 1; k < a.length; k++) s = s.conj(a[k]); return s; });
        d("sorted?", 1, a -> a[0] instanceof PSortedMap || a[0] instanceof PSet && ((PSet) a[0]).m instanceof PSortedMap);
        d("keys", 1, a -> { ArrayList<Object> l = new ArrayList<>(); for (Iterator<?> it = RT.iter(a[0]); it.hasNext(); ) l.add(((Map.Entry<?, ?>) entry(it.next())).getKey()); return l.isEmpty() ? null : new ArrSeq(l.toArray(), 0, l.size(), null); });
        d("vals", 1, a -> { ArrayList<Object> l = new ArrayList<>(); for (Iterator<?> it = RT.iter(a[0]); it.hasNext(); ) l.add(((Map.Entry<?, ?>) entry(it.next())).getValue()); return l.isEmpty() ? null : new ArrSeq(l.toArray(), 0, l.size(), null); });
        d("key", 1, a -> ((Map.Entry<?, ?>) a[0]).getKey());
        d("val", 1, a -> ((Map.Entry<?, ?>) a[0]).getValue());
        d("map-entry", 2, a -> new MapEntry(a[0], a[1]));
        d("find", 2, a -> { if (a[0] == null) return null; if (a[0] instanceof PVector) return RT.contains(a[0], a[1]) ? new MapEntry(a[1], RT.get(a[0], a[1], null)) : null; AMap m = (AMap) a[0]; return m.has(a[1]) ? new MapEntry(m.key(a[1]), m.get(a[1], null)) : null; });
        d("peek", 1, a -> a[0] == null ? null : a[0] instanceof PVector ? (((PVector) a[0]).n == 0 ? null : ((PVector) a[0]).nth(((PVector) a[0]).n - 1)) : RT.first(a[0]));
        d("pop", 1, a -> { if (a[0] == null) return null; if (a[0] instanceof PVector) return ((PVector) a[0]).pop(); if (RT.seq(a[0]) == null) throw new IllegalStateException("Can't pop empty list"); return RT.more(a[0]); });
        d("subvec", 2, 3, a -> ((PVector) a[0]).sub(i(a[1]), a.length > 2 ? i(a[2]) : ((PVector) a[0]).n));
        d("reverse", 1, a -> { Object r = PList.EMPTY; for (Iterator<?> it = RT.iter(a[0]); it.hasNext(); ) r = new Cons(it.next(), r, null, true); return r; });
        d("rseq", 1, a -> { ArrayList<Object> l = RT.list(a[0]); Collections.reverse(l); return RT.seq(PVector.ofList(l)); });
        d("empty", 1, a -> { Object o = a[0]; if (o instanceof MapEntry) return null; if (o instanceof PVector) return PVector.EMPTY.withMeta(((PVector) o).meta); if (o instanceof AMap) return ((AMap) o).empty(); if (o instanceof PSet) return new PSet(((PSet) o).m.empty(), ((PSet) o).meta); if (o instanceof Sequential) return PList.EMPTY; return null; });
        d("into", 0, 3, a -> { if (a.length == 0) return PVector.EMPTY; if (a.length == 1) return a[0]; if (a.length == 2) return into(a[0], a[1]);
            // as Clojure does it, through a transient where there is one: a result a transducer drops is then not lost
            if (a[0] instanceof PVector || a[0] instanceof AMap || a[0] instanceof PSet) {
                Object r = core("persistent!").invoke(new Object[]{RT.transduce(a[1], core("conj!"), core("transient").invoke(new Object[]{a[0]}), a[2])});
                Object m = ((IObj) a[0]).meta();
                return m == null ? r : ((IObj) r).withMeta(m);
            }
            return RT.transduce(a[1], core("conj"), a[0], a[2]); });
        d("reduce", 2, 3, a -> {
            if (a.length == 3) return RT.reduce(fn(a[0]), a[1], a[2]);
            if (a[1] instanceof Eduction) { ArrayList<Object> l = RT.list(a[1]); return reduce2(fn(a[0]), l.iterator()); }
            return reduce2(fn(a[0]), RT.iter(a[1]));
        });
        d("reduce-kv", 3, a -> {
            Object r = a[1]; IFn f = fn(a[0]);
            if (a[2] == null) return r;
            if (a[2] instanceof PVector) { PVector v = (PVector) a[2]; for (int k = 0; k < v.n; k++) { r = f.invoke(new Object[]{r, (long) k, v.nth(k)}); if (r instanceof Reduced) return ((Reduced) r).v; } return r; }
            for (Object e : (AMap) a[2]) { r = f.invoke(new Object[]{r, ((MapEntry) e).getKey(), ((MapEntry) e).getValue()}); if (r instanceof Reduced) return ((Reduced) r).v; }
            return r;
        });
        d("transduce", 3, 4, a -> a.length == 3 ? RT.transduce(a[0], a[1], fn(a[1]).invoke(RT.NOARGS), a[2]) : RT.transduce(a[0], a[1], a[2], a[3]));
        d("reduced", 1, a -> new Reduced(a[0]));
        d("reduced?", 1, a -> a[0] instanceof Reduced);
        d("unreduced", 1, a -> a[0] instanceof Reduced ? ((Reduced) a[0]).v : a[0]);
        d("ensure-reduced", 1, a -> a[0] instanceof Reduced ? a[0] : new Reduced(a[0]));
        d("->Eduction", 2, a -> new Eduction(a[0], a[1]));
        d("sort", 1, 2, a -> a.length == 1 ? RT.sort(null, a[0]) : RT.sort(cmp(a[0]), a[1]));
        d("sort-by", 2, 3, a -> {
            IFn kf = fn(a[0]); IFn c = a.length == 3 ? cmp(a[1]) : null; Object[] xs = RT.array(a[a.length - 1]);
            if (xs.length == 0) return PList.EMPTY;
            Arrays.sort(xs, (x, y) -> { Object p = kf.invoke(new Object[]{x}), q = kf.invoke(new Object[]{y}); return c == null ? RT.compare(p, q) : RT.cmpWith(c, p, q); });
            return new ArrSeq(xs, 0, xs.length, null);
        });
        d("lazy-seq*", 1, a -> new LazySeq(fn(a[0])));
        d("delay*", 1, a -> new Delay(fn(a[0])));
        d("future-call", 1, a -> {
            final AMap b = Var.bindings.get(); final IFn f = fn(a[0]);
            return new Fut(new Builtin("future", 0, 0, x -> { Var.bindings.set(b); return f.invoke(RT.NOARGS); }));
        });
        d("force", 1, a -> a[0] instanceof Delay ? ((Delay) a[0]).deref() : a[0]);
        d("delay?", 1, a -> a[0] instanceof Delay);
        d("realized?", 1, a -> a[0] instanceof LazySeq ? ((LazySeq) a[0]).realized() : a[0] instanceof Delay ? ((Delay) a[0]).f == null : a[0] instanceof Fut ? ((Fut) a[0]).t.isDone() : true);
        d("transient", 1, a -> a[0] instanceof PVector ? new TVec((PVector) a[0]) : a[0] instanceof PSet ? new TSet((PSet) a[0]) : new TMap((AMap) a[0]));
        d("persistent!", 1, a -> {
            if (a[0] instanceof TVec) { TVec t = (TVec) a[0]; t.ok(); t.done = true; return t.v; }
            if (a[0] instanceof TSet) { TSet t = (TSet) a[0]; t.ok(); t.done = true; return t.s; }
            TMap t = (TMap) a[0]; t.ok(); t.done = true; return t.m;
        });
        d("assoc!", 3, -1, a -> {
            Object t = a[0];
            for (int k = 1; k < a.length; k += 2) { if (t instanceof TVec) { ((TVec) t).ok(); ((TVec) t).v = ((TVec) t).v.assocN(i(a[k]), a[k + 1]); } else t = ((TMap) t).assoc(a[k], a[k + 1]); }
            return t;
        });
        d("conj!", 0, 2, a -> {
            if (a.length == 0) return new TVec(PVector.EMPTY);
            if (a.length == 1) return a[0];
            if (a[0] instanceof TVec) { TVec t = (TVec) a[0]; t.ok(); t.v = t.v.conj(a[1]); return t; }
            if (a[0] instanceof TSet) { TSet t = (TSet) a[0]; t.ok(); t.s = t.s.conj(a[1]); return t; }
            TMap t = (TMap) a[0]; 
            if (a[1] instanceof PVector) return t.assoc(((PVector) a[1]).nth(0), ((PVector) a[1]).nth(1));
            for (Object e : (AMap) a[1]) t = t.assoc(((MapEntry) e).getKey(), ((MapEntry) e).getValue());
            return t;
        });
        d("dissoc!", 2, -1, a -> { TMap t = (TMap) a[0]; for (int k = 1; k < a.length; k++) t = t.without(a[k]); return t; });
        d("disj!", 2, -1, a -> { TSet t = (TSet) a[0]; t.ok(); for (int k = 1; k < a.length; k++) t.s = t.s.disj(a[k]); return t; });
        d("pop!", 1, a -> { TVec t = (TVec) a[0]; t.ok(); t.v = t.v.pop(); return t; });
        // --- equality and numbers
        d("=", 1, -1, a -> { for (int k = 0; k + 1 < a.length; k++) if (!RT.equiv(a[k], a[k + 1])) return false; return true; });
        d("not=", 1, -1, a -> { for (int k = 0; k + 1 < a.length; k++) if (!RT.equiv(a[k], a[k + 1])) return true; return false; });
        d("==", 1, -1, a -> chain(a, c -> c == 0));
        d("<", 1, -1, a -> chain(a, c -> c < 0));
        d(">", 1, -1, a -> chain(a, c -> c > 0));
        d("<=", 1, -1, a -> chain(a, c -> c <= 0));
        d(">=", 1, -1, a -> chain(a, c -> c >= 0));
        d("identical?", 2, a -> a[0] == a[1]);
        d("compare", 2, a -> (long) RT.compare(a[0], a[1]));
        d("comparator", 1, a -> { IFn f = fn(a[0]); return new Builtin("comparator", 2, 2, b -> RT.truthy(f.invoke(b)) ? -1L : RT.truthy(f.invoke(new Object[]{b[1], b[0]})) ? 1L : 0L); });
        d("hash", 1, a -> (long) RT.hash(a[0]));
        d("+", 0, -1, a -> { if (a.length == 1) Num.cat(a[0]); return a.length == 0 ? 0L : fold(a, Num::add); });
        d("*", 0, -1, a -> { if (a.length == 1) Num.cat(a[0]); return a.length == 0 ? 1L : fold(a, Num::mul); });
        d("-", 1, -1, a -> a.length == 1 ? Num.neg(a[0]) : fold(a, Num::sub));
        d("/", 1, -1, a -> a.length == 1 ? Num.div(1L, a[0]) : fold(a, Num::div));
        d("+'", 0, -1, a -> a.length == 0 ? 0L : promoteIf(a, fold(bigs(a), Num::add)));
        d("*'", 0, -1, a -> a.length == 0 ? 1L : promoteIf(a, fold(bigs(a), Num::mul)));
        d("-'", 1, -1, a -> promoteIf(a, a.length == 1 ? Num.neg(bigUp(a[0])) : fold(bigs(a), Num::sub)));
        d("inc'", 1, a -> promoteIf(a, Num.add(bigUp(a[0]), 1L)));
        d("dec'", 1, a -> promoteIf(a, Num.sub(bigUp(a[0]), 1L)));
        d("unchecked-add", 2, a -> lng(a[0]) + lng(a[1]));
        d("unchecked-inc", 1, a -> lng(a[0]) + 1);
        d("inc", 1, a -> Num.add(a[0], 1L));
        d("dec", 1, a -> Num.sub(a[0], 1L));
        d("quot", 2, a -> Num.quo(a[0], a[1]));
        d("rem", 2, a -> Num.rem(a[0], a[1]));
        d("mod", 2, a -> Num.mod(a[0], a[1]));
        d("abs", 1, a -> Num.sign(a[0]) < 0 ? Num.neg(a[0]) : a[0]);
        d("max", 1, -1, a -> { Object r = a[0]; Num.cat(r); for (Object x : a) if (Num.compare(x, r) > 0) r = x; return r; });
        d("min", 1, -1, a -> { Object r = a[0]; Num.cat(r); for (Object x : a) if (Num.compare(x, r) < 0) r = x; return r; });
        d("zero?", 1, a -> Num.sign(a[0]) == 0);
        d("pos?", 1, a -> Num.sign(a[0]) > 0);
        d("neg?", 1, a -> Num.sign(a[0]) < 0);
        d("even?", 1, a -> { if (!RT.isInteger(a[0])) throw new IllegalArgumentException("Argument must be an integer: " + a[0]); return !Num.big(a[0]).testBit(0); });
        d("odd?", 1, a -> { if (!RT.isInteger(a[0])) throw new IllegalArgumentException("Argument must be an integer: " + a[0]); return Num.big(a[0]).testBit(0); });
        d("number?", 1, a -> a[0] instanceof Number);
        d("int?", 1, a -> RT.isInt(a[0]));
        d("integer?", 1, a -> RT.isInteger(a[0]));
        d("decimal?", 1, a -> a[0] instanceof BigDecimal);
        d("ratio?", 1, a -> a[0] instanceof Ratio);
        d("rational?", 1, a -> RT.isInteger(a[0]) || a[0] instanceof Ratio || a[0] instanceof BigDecimal);
        d("float?", 1, a -> a[0] instanceof Double || a[0] instanceof Float);
        d("double?", 1, a -> a[0] instanceof Double);
        d("nat-int?", 1, a -> RT.isInt(a[0]) && lng(a[0]) >= 0);
        d("pos-int?", 1, a -> RT.isInt(a[0]) && lng(a[0]) > 0);
        d("neg-int?", 1, a -> RT.isInt(a[0]) && lng(a[0]) < 0);
        d("NaN?", 1, a -> Double.isNaN(Num.dbl(a[0])));
        d("bigdec", 1, a -> bigdec(a[0]));
        d("bigint", 1, a -> a[0] instanceof String ? new BigInteger((String) a[0]) : a[0] instanceof BigDecimal ? ((BigDecimal) a[0]).toBigInteger() : a[0] instanceof Ratio ? ((Ratio) a[0]).num.divide(((Ratio) a[0]).den) : a[0] instanceof Double ? new BigDecimal((Double) a[0]).toBigInteger() : Num.big(a[0]));
        RT.CORE.intern("biginteger").root = RT.CORE.vars.get("bigint").root;
        d("long", 1, a -> a[0] instanceof Character ? (long) (Character) a[0] : lng(a[0]));
        d("int", 1, a -> { if (a[0] instanceof Character) return (long) (Character) a[0]; long v = lng(a[0]); if (v != (int) v) throw new IllegalArgumentException("Value out of range for int: " + a[0]); return v; });
        d("short", 1, a -> lng(a[0])); d("byte", 1, a -> lng(a[0])); d("num", 1, a -> a[0]);
        d("double", 1, a -> Num.dbl(a[0])); d("float", 1, a -> Num.dbl(a[0]));
        d("char", 1, a -> a[0] instanceof Character ? a[0] : (Object) (char) i(a[0]));
        d("rationalize", 1, a -> a[0] instanceof Double || a[0] instanceof BigDecimal ? ratn(a[0] instanceof Double ? BigDecimal.valueOf((Double) a[0]) : (BigDecimal) a[0]) : a[0]);
        d("numerator", 1, a -> ((Ratio) a[0]).num); d("denominator", 1, a -> ((Ratio) a[0]).den);
        d("bit-and", 2, -1, a -> fold(a, (x, y) -> lng(x) & lng(y))); d("bit-or", 2, -1, a -> fold(a, (x, y) -> lng(x) | lng(y))); d("bit-xor", 2, -1, a -> fold(a, (x, y) -> lng(x) ^ lng(y)));
        d("bit-not", 1, a -> ~lng(a[0])); d("bit-shift-left", 2, a -> lng(a[0]) << lng(a[1])); d("bit-shift-right", 2, a -> lng(a[0]) >> lng(a[1])); d("unsigned-bit-shift-right", 2, a -> lng(a[0]) >>> lng(a[1]));
        d("bit-and-not", 2, a -> lng(a[0]) & ~lng(a[1])); d("bit-set", 2, a -> lng(a[0]) | 1L << lng(a[1])); d("bit-clear", 2, a -> lng(a[0]) & ~(1L << lng(a[1]))); d("bit-flip", 2, a -> lng(a[0]) ^ 1L << lng(a[1]));
        d("unchecked-subtract", 2, a -> lng(a[0]) - lng(a[1])); d("unchecked-multiply", 2, a -> lng(a[0]) * lng(a[1])); d("unchecked-dec", 1, a -> lng(a[0]) - 1); d("unchecked-negate", 1, a -> -lng(a[0]));
        d("unchecked-long", 1, a -> ((Number) a[0]).longValue()); d("unchecked-int", 1, a -> (long) ((Number) a[0]).intValue());
        d("infinite?", 1, a -> Double.isInfinite(Num.dbl(a[0])));
        d("iterator-seq", 1, a -> IterSeq.of((Iterator<?>) a[0]));
        d("enumeration-seq", 1, a -> IterSeq.of(((Enumeration<?>) a[0]).asIterator()));
        d("parse-uuid", 1, a -> { try { return UUID.fromString((String) a[0]); } catch (IllegalArgumentException e) { return null; } });
        d("aclone", 1, a -> ((Object[]) a[0]).clone());
        d("bit-test", 2, a -> (lng(a[0]) >> lng(a[1]) & 1) == 1);
        d("rand", 0, 1, a -> random.nextDouble() * (a.length > 0 ? Num.dbl(a[0]) : 1)); d("rand-int", 1, a -> (long) random.nextInt(i(a[0])));
        d("shuffle", 1, a -> { ArrayList<Object> l = RT.list(a[0]); Collections.shuffle(l, random); return PVector.ofList(l); });
        d("parse-long", 1, a -> { try { return Long.parseLong((String) a[0]); } catch (NumberFormatException e) { return null; } });
        d("parse-double", 1, a -> { try { return Double.parseDouble((String) a[0]); } catch (NumberFormatException e) { return null; } });
        d("parse-boolean", 1, a -> a[0].equals("true") ? Boolean.TRUE : a[0].equals("false") ? Boolean.FALSE : null);
        // --- strings, names
        d("str", 0, -1, a -> { if (a.length == 1) return RT.str(a[0]); StringBuilder b = new StringBuilder(); for (Object o : a) b.append(RT.str(o)); return b.toString(); });
        d("subs", 2, 3, a -> a.length == 2 ? ((String) a[0]).substring(i(a[1])) : ((String) a[0]).substring(i(a[1]), i(a[2])));
        d("format", 1, -1, a -> { Object[] b = Arrays.copyOfRange(a, 1, a.length); return String.format((String) a[0], b); });
        d("name", 1, a -> name(a[0]));
        d("namespace", 1, a -> a[0] instanceof Keyword ? ((Keyword) a[0]).sym.ns : ((Symbol) a[0]).ns);
        d("symbol", 1, 2, a -> a.length == 2 ? Symbol.of((String) a[0], (String) a[1]) : a[0] instanceof Symbol ? a[0] : a[0] instanceof Keyword ? ((Keyword) a[0]).sym : a[0] instanceof Var ? Symbol.of(((Var) a[0]).ns.name, ((Var) a[0]).sym.name) : Symbol.of((String) a[0]));
        d("keyword", 1, 2, a -> a.length == 2 ? Keyword.of((String) a[0], (String) a[1]) : keyw(a[0]));
        d("find-keyword", 1, 2, a -> keyw(a[0]));
        d("gensym", 0, 1, a -> Symbol.of(Reader.gensym(a.length > 0 ? a[0].toString() : "G__")));
        d("pr-str*", 1, a -> RT.prStr(a[0]));
        d("pr", 0, -1, a -> { printAll(a, true, ""); return null; });
        d("prn", 0, -1, a -> { printAll(a, true, "\n"); return null; });
        d("print", 0, -1, a -> { printAll(a, false, ""); return null; });
        d("println", 0, -1, a -> { printAll(a, false, "\n"); return null; });
        d("newline", 0, a -> { out().write("\n"); return null; });
        d("flush", 0, a -> { out().flush(); return null; });
        d("print-plain", 2, a -> { RT.printPlain(a[0], (Writer) a[1]); return null; });
        d("write*", 2, a -> { ((Writer) a[0]).write(RT.str(a[1])); return null; });
        d("re-pattern", 1, a -> a[0] instanceof Pattern ? a[0] : Pattern.compile((String) a[0]));
        d("re-matcher", 2, a -> ((Pattern) a[0]).matcher((CharSequence) a[1]));
        d("re-groups", 1, a -> groups((Matcher) a[0]));
        d("re-find", 1, 2, a -> { Matcher m = a.length == 1 ? (Matcher) a[0] : ((Pattern) a[0]).matcher((CharSequence) a[1]); return m.find() ? groups(m) : null; });
        d("re-matches", 2, a -> { Matcher m = ((Pattern) a[0]).matcher((CharSequence) a[1]); return m.matches() ? groups(m) : null; });
        d("re-seq", 2, a -> { Matcher m = ((Pattern) a[0]).matcher((CharSequence) a[1]); ArrayList<Object> l = new ArrayList<>(); while (m.find()) l.add(groups(m)); return l.isEmpty() ? null : RT.seq(PVector.ofList(l)); });
        // --- predicates
        d("nil?", 1, a -> a[0] == null); d("some?", 1, a -> a[0] != null); d("not", 1, a -> !RT.truthy(a[0]));
        d("true?", 1, a -> Boolean.TRUE.equals(a[0])); d("false?", 1, a -> Boolean.FALSE.equals(a[0])); d("boolean", 1, a -> RT.truthy(a[0])); d("boolean?", 1, a -> a[0] instanceof Boolean);
        d("map?", 1, a -> a[0] instanceof AMap); d("vector?", 1, a -> a[0] instanceof PVector); d("set?", 1, a -> a[0] instanceof PSet);
        d("list?", 1, a -> a[0] instanceof PList || a[0] instanceof Cons && ((Cons) a[0]).list);
        d("seq?", 1, a -> a[0] instanceof ISeq || a[0] instanceof PList); d("coll?", 1, a -> a[0] instanceof Sequential || a[0] instanceof AMap || a[0] instanceof PSet);
        d("sequential?", 1, a -> a[0] instanceof Sequential); d("associative?", 1, a -> a[0] instanceof AMap || a[0] instanceof PVector); d("indexed?", 1, a -> a[0] instanceof PVector);
        d("seqable?", 1, a -> RT.isSeqable(a[0])); d("map-entry?", 1, a -> a[0] instanceof MapEntry); d("record?", 1, a -> false); d("reversible?", 1, a -> a[0] instanceof PVector);
        d("string?", 1, a -> a[0] instanceof String); d("char?", 1, a -> a[0] instanceof Character); d("symbol?", 1, a -> a[0] instanceof Symbol); d("keyword?", 1, a -> a[0] instanceof Keyword);
        d("ident?", 1, a -> a[0] instanceof Symbol || a[0] instanceof Keyword);
        d("qualified-keyword?", 1, a -> a[0] instanceof Keyword && ((Keyword) a[0]).sym.ns != null); d("simple-keyword?", 1, a -> a[0] instanceof Keyword && ((Keyword) a[0]).sym.ns == null);
        d("qualified-symbol?", 1, a -> a[0] instanceof Symbol && ((Symbol) a[0]).ns != null); d("simple-symbol?", 1, a -> a[0] instanceof Symbol && ((Symbol) a[0]).ns == null);
        d("fn?", 1, a -> a[0] instanceof Interp.Fn || a[0] instanceof Builtin); d("ifn?", 1, a -> a[0] instanceof IFn); d("class?", 1, a -> a[0] instanceof Class); d("var?", 1, a -> a[0] instanceof Var);
        d("instance?", 2, a -> ((Class<?>) a[0]).isInstance(a[1])); d("class", 1, a -> a[0] == null ? null : a[0].getClass());
        d("cast", 2, a -> ((Class<?>) a[0]).cast(a[1]));
        d("type", 1, a -> { Object t = RT.get(RT.meta(a[0]), K("type"), null); return t != null ? t : a[0] == null ? null : a[0].getClass(); });
        d("uuid?", 1, a -> a[0] instanceof UUID); d("inst?", 1, a -> a[0] instanceof Date || a[0] instanceof java.time.Instant); d("random-uuid", 0, a -> UUID.randomUUID());
        d("volatile?", 1, a -> a[0] instanceof Volatile);
        // --- functions, state
        d("apply", 2, -1, a -> apply(a[0], Arrays.copyOfRange(a, 1, a.length - 1), a[a.length - 1]));
        d("meta", 1, a -> RT.meta(a[0]));
        d("with-meta", 2, a -> { if (!(a[0] instanceof IObj)) throw new ClassCastException("class " + RT.className(a[0]) + " cannot be cast to class clojure.lang.IObj"); return ((IObj) a[0]).withMeta(a[1]); });
        d("atom", 1, -1, a -> new Atom(a[0]));
        d("deref", 1, 3, a -> {
            if (a.length == 3) {
                java.util.concurrent.Future<?> t = a[0] instanceof Fut ? ((Fut) a[0]).t : (java.util.concurrent.Future<?>) a[0];
                try { return t.get(lng(a[1]), java.util.concurrent.TimeUnit.MILLISECONDS); } catch (java.util.concurrent.TimeoutException e) { return a[2]; }
            }
            return a[0] instanceof IDeref ? ((IDeref) a[0]).deref() : ((java.util.concurrent.Future<?>) a[0]).get();
        });
        d("swap!", 2, -1, a -> { Atom t = (Atom) a[0]; synchronized (t) { return t.v = fn(a[1]).invoke(args(t.v, a, 2)); } });
        d("swap-vals!", 2, -1, a -> { Atom t = (Atom) a[0]; synchronized (t) { Object o = t.v; t.v = fn(a[1]).invoke(args(o, a, 2)); return PVector.of(o, t.v); } });
        d("reset!", 2, a -> ((Atom) a[0]).v = a[1]);
        d("reset-vals!", 2, a -> { Atom t = (Atom) a[0]; Object o = t.v; t.v = a[1]; return PVector.of(o, a[1]); });
        d("compare-and-set!", 3, a -> { Atom t = (Atom) a[0]; synchronized (t) { if (t.v == a[1] || RT.equiv(t.v, a[1]) && t.v instanceof Number) { t.v = a[2]; return true; } return false; } });
        d("add-watch", 3, a -> { throw new Unsupported("add-watch"); });
        d("get-thread-bindings", 0, a -> { AMap b = Var.bindings.get(); AMap r = PArrayMap.EMPTY; if (b != null) for (Object e : b) r = r.assoc(((MapEntry) e).getKey(), ((Object[]) ((MapEntry) e).getValue())[0]); return r; });
        d("reset-meta!", 2, a -> { if (a[0] instanceof Var) ((Var) a[0]).meta = a[1]; else ((Atom) a[0]).meta = a[1]; return a[1]; });
        // --- protocols and what implements them
        d("protocol*", 1, a -> new Protocol((Symbol) a[0]));
        d("protocol-fn*", 2, a -> ((Protocol) a[0]).method((String) a[1]));
        d("extend*", 3, a -> { ((Protocol) a[1]).extend((Class<?>) a[0], (AMap) a[2]); return null; });
        d("extend", 1, -1, a -> { for (int k = 1; k + 1 < a.length; k += 2) ((Protocol) a[k]).extend((Class<?>) a[0], (AMap) a[k + 1]); return null; });
        d("satisfies?", 2, a -> ((Protocol) a[0]).satisfied(a[1]));
        d("extends?", 2, a -> ((Protocol) a[0]).impls.containsKey(a[1]));
        d("extenders", 1, a -> RT.seq(PVector.of(((Protocol) a[0]).impls.keySet().toArray())));
        d("reify*", 2, a -> Reified.make((PVector) a[0], (AMap) a[1]));
        d("ancestors", 1, a -> RT.ancestors(a[0]));
        d("descendants", 1, a -> { PSet r = PSet.EMPTY; for (Object e : RT.hierarchy) { Object k = ((MapEntry) e).getKey(); if (!RT.equiv(k, a[0]) && RT.isa(k, a[0])) r = r.conj(k); } return RT.seq(r) == null ? null : r; });
        d("bases", 1, a -> { ArrayList<Object> l = new ArrayList<>(); Class<?> c = (Class<?>) a[0]; if (c.getSuperclass() != null) l.add(c.getSuperclass()); l.addAll(Arrays.asList(c.getInterfaces())); return RT.seq(PVector.ofList(l)); });
        d("ns-unmap", 2, a -> { nsOf(a[0]).vars.remove(a[1].toString()); nsOf(a[0]).refers.remove(a[1].toString()); return null; });
        d("ns-unalias", 2, a -> { nsOf(a[0]).aliases.remove(a[1].toString()); return null; });
        d("remove-ns", 1, a -> Namespace.all.remove(a[0].toString()));
        d("loaded-libs", 0, a -> { PSet r = PSet.EMPTY; for (String n : Interp.loaded) r = r.conj(Symbol.of(null, n)); return r; });
        d("volatile!", 1, a -> new Volatile(a[0]));
        d("vreset!", 2, a -> ((Volatile) a[0]).v = a[1]);
        d("vswap!*", 2, -1, a -> { Volatile t = (Volatile) a[0]; return t.v = fn(a[1]).invoke(args(t.v, a, 2)); });
        // --- errors
        d("ex-info", 2, 3, a -> new ExInfo((String) a[0], a[1], a.length > 2 ? (Throwable) a[2] : null));
        d("ex-data", 1, a -> a[0] instanceof ExInfo ? ((ExInfo) a[0]).data : null);
        d("ex-message", 1, a -> a[0] instanceof Throwable ? ((Throwable) a[0]).getMessage() : null);
        d("ex-cause", 1, a -> a[0] instanceof Throwable ? ((Throwable) a[0]).getCause() : null);
        d("Throwable->map", 1, a -> throwableMap((Throwable) a[0]));
        // --- namespaces, vars, evaluation
        d("eval", 1, a -> { AMap s = Var.bindings.get(); return Interp.eval(a[0]); });
        d("macroexpand-1", 1, a -> Interp.macroexpand1(a[0], null));
        d("macroexpand", 1, a -> Interp.expandAll(a[0], new Interp.Env(new Interp.Ctx(null), null)));
        d("read-string", 1, 2, a -> { Object x = new Reader((String) a[a.length - 1]).read(); if (x == Reader.EOF) throw new RuntimeException("EOF while reading"); return x; });
        d("read-edn*", 4, a -> { Object x = new Reader((String) a[0], true, a[1], a[2]).read(); if (x == Reader.EOF) { if (a[3] == K("ljc/none")) throw new RuntimeException("EOF while reading"); return a[3]; } return x; });
        d("load-string", 1, a -> Interp.loadString((String) a[0], "string"));
        d("load-file", 1, a -> Interp.loadFile(Paths.get((String) a[0])));
        d("require", 0, -1, a -> { for (Object s : a) Interp.require(Interp.curNs(), s, false); return null; });
        d("use", 0, -1, a -> { for (Object s : a) Interp.require(Interp.curNs(), s, true); return null; });
        d("refer", 1, -1, a -> { Interp.referAll(Interp.curNs(), a[0].toString()); return null; });
        d("refer-clojure", 0, -1, a -> null);
        d("alias", 2, a -> { Interp.curNs().aliases.put(a[0].toString(), a[1] instanceof Namespace ? ((Namespace) a[1]).name : a[1].toString()); return null; });
        d("requiring-resolve", 1, a -> { Symbol s = (Symbol) a[0]; Interp.load(s.ns); return Namespace.of(s.ns).vars.get(s.name); });
        d("in-ns", 1, a -> { Namespace n = Namespace.of(a[0].toString()); RT.NS.set(n); return n; });
        d("create-ns", 1, a -> Namespace.of(a[0].toString()));
        d("find-ns", 1, a -> Namespace.all.get(a[0].toString()));
        d("the-ns", 1, a -> nsOf(a[0]));
        d("ns-name", 1, a -> Symbol.of(null, nsOf(a[0]).name));
        d("all-ns", 0, a -> PVector.of(Namespace.all.values().toArray()));
        d("ns-resolve", 2, 3, a -> { Symbol s = (Symbol) a[a.length - 1]; Var v = Interp.resolveVarIn(nsOf(a[0]), s); return v != null ? v : Interp.classOf(s.toString()); });
        d("resolve", 1, 2, a -> { Symbol s = (Symbol) a[a.length - 1]; Var v = Interp.resolveVar(s); return v != null ? v : Interp.classOf(s.toString()); });
        d("ns-publics", 1, a -> { AMap m = PArrayMap.EMPTY; for (Map.Entry<String, Var> e : nsOf(a[0]).vars.entrySet()) if (!e.getValue().priv) m = m.assoc(Symbol.of(null, e.getKey()), e.getValue()); return m; });
        d("ns-interns", 1, a -> { AMap m = PArrayMap.EMPTY; for (Map.Entry<String, Var> e : nsOf(a[0]).vars.entrySet()) m = m.assoc(Symbol.of(null, e.getKey()), e.getValue()); return m; });
        d("intern", 2, 3, a -> { Var v = nsOf(a[0]).intern(((Symbol) a[1]).name); if (a.length > 2) v.root = a[2]; return v; });
        d("var-get", 1, a -> ((Var) a[0]).deref()); d("var-set", 2, a -> { ((Var) a[0]).set(a[1]); return a[1]; });
        d("find-var", 1, a -> Interp.resolveVar((Symbol) a[0])); d("bound?", 1, -1, a -> { for (Object v : a) if (((Var) v).deref() == Var.UNBOUND) return false; return true; });
        d("thread-bound?", 1, -1, a -> { for (Object v : a) { AMap b = Var.bindings.get(); if (b == null || !b.has(v)) return false; } return true; });
        d("alter-var-root", 2, -1, a -> { Var v = (Var) a[0]; synchronized (v) { Object old = v.root; return v.root = fn(a[1]).invoke(args(old, a, 2)); } });
        d("alter-meta!", 2, -1, a -> { Var v = (Var) a[0]; return v.meta = fn(a[1]).invoke(args(v.meta, a, 2)); });
        d("with-bindings*", 2, -1, a -> {
            AMap saved = Var.bindings.get(); AMap b = saved == null ? PArrayMap.EMPTY : saved;
            for (Object e : (AMap) a[0]) {
                Var v = (Var) ((MapEntry) e).getKey();
                if (!v.dynamic) throw new IllegalStateException("Can't dynamically bind non-dynamic var: " + v.ns.name + "/" + v.sym.name);
                b = b.assoc(v, new Object[]{((MapEntry) e).getValue()});
            }
            Var.bindings.set(b);
            try { return fn(a[1]).invoke(Arrays.copyOfRange(a, 2, a.length)); } finally { Var.bindings.set(saved); }
        });
        d("with-redefs-fn", 2, a -> {
            ArrayList<Object[]> old = new ArrayList<>();
            for (Object e : (AMap) a[0]) { Var v = (Var) ((MapEntry) e).getKey(); old.add(new Object[]{v, v.root}); v.root = ((MapEntry) e).getValue(); }
            try { return fn(a[1]).invoke(RT.NOARGS); } finally { for (Object[] o : old) ((Var) o[0]).root = o[1]; }
        });
        d("bound-fn*", 1, a -> { final AMap b = Var.bindings.get(); final IFn f = fn(a[0]); return new Builtin("bound", 0, -1, x -> { AMap s = Var.bindings.get(); Var.bindings.set(b); try { return f.invoke(x); } finally { Var.bindings.set(s); } }); });
        // --- multimethods
        d("multi*", 3, a -> new MultiFn((String) a[0], fn(a[1]), a[2]));
        d("add-method*", 3, a -> { MultiFn m = (MultiFn) a[0]; synchronized (m) { m.methods = m.methods.assoc(a[1], a[2]); } return m; });
        d("get-method", 2, a -> ((MultiFn) a[0]).find(a[1]));
        d("methods", 1, a -> ((MultiFn) a[0]).methods);
        d("remove-method", 2, a -> { ((MultiFn) a[0]).methods = ((MultiFn) a[0]).methods.without(a[1]); return a[0]; });
        d("remove-all-methods", 1, a -> { ((MultiFn) a[0]).methods = PArrayMap.EMPTY; return a[0]; });
        d("prefer-method", 3, a -> a[0]);
        d("multi?", 1, a -> a[0] instanceof MultiFn);
        d("derive", 2, 3, a -> { if (a.length == 3) throw new Unsupported("derive with a hierarchy"); RT.derive(a[0], a[1]); return null; });
        d("isa?", 2, 3, a -> RT.isa(a[a.length - 2], a[a.length - 1]));
        d("parents", 1, a -> RT.hierarchy.get(a[0], null));
        // --- arrays, Java, input and output
        d("object-array", 1, a -> RT.isInt(a[0]) ? new Object[i(a[0])] : RT.array(a[0]));
        d("to-array", 1, a -> RT.array(a[0]));
        d("into-array", 1, 2, a -> { ArrayList<Object> l = RT.list(a[a.length - 1]); Class<?> c = a.length == 2 ? (Class<?>) a[0] : l.isEmpty() ? Object.class : l.get(0).getClass(); Object r = java.lang.reflect.Array.newInstance(c, l.size()); for (int k = 0; k < l.size(); k++) java.lang.reflect.Array.set(r, k, Interp.conv(c, l.get(k))); return r; });
        d("make-array", 2, a -> java.lang.reflect.Array.newInstance((Class<?>) a[0], i(a[1])));
        d("long-array", 1, a -> RT.isInt(a[0]) ? new long[i(a[0])] : RT.list(a[0]).stream().mapToLong(Core::lng).toArray()); d("int-array", 1, a -> RT.isInt(a[0]) ? new int[i(a[0])] : RT.list(a[0]).stream().mapToInt(Core::i).toArray());
        d("byte-array", 1, a -> new byte[i(a[0])]); d("char-array", 1, a -> a[0] instanceof String ? ((String) a[0]).toCharArray() : new char[i(a[0])]);
        d("double-array", 1, a -> RT.isInt(a[0]) ? new double[i(a[0])] : RT.list(a[0]).stream().mapToDouble(x -> ((Number) x).doubleValue()).toArray());
        d("boolean-array", 1, a -> { if (RT.isInt(a[0])) return new boolean[i(a[0])]; ArrayList<Object> l = RT.list(a[0]); boolean[] b = new boolean[l.size()]; for (int k = 0; k < b.length; k++) b[k] = (Boolean) l.get(k); return b; });
        d("aget", 2, a -> RT.box(java.lang.reflect.Array.get(a[0], i(a[1])))); d("alength", 1, a -> (long) java.lang.reflect.Array.getLength(a[0]));
        d("aset", 3, a -> { java.lang.reflect.Array.set(a[0], i(a[1]), Interp.conv(a[0].getClass().getComponentType(), a[2])); return a[2]; });
        d("slurp", 1, -1, a -> { try (java.io.Reader r = reader(a[0])) { return slurp(r); } });
        d("reader*", 1, a -> { java.io.Reader r = reader(a[0]); return r instanceof BufferedReader ? r : new BufferedReader(r); });
        d("read-line", 0, a -> { Object r = RT.IN.deref(); return ((BufferedReader) r).readLine(); });
        d("line-seq*", 1, a -> ((BufferedReader) a[0]).readLine());
        d("nano-time", 0, a -> System.nanoTime());
        d("string-writer*", 0, a -> new StringWriter());
        d("shutdown-agents", 0, a -> null);
        d("ljc-unsupported", 1, a -> { throw new Unsupported((String) a[0]); });
        Lib.init();
        RT.CORE.intern("*clojure-version*").root = AMap.of(K("major"), 1L, K("minor"), 12L, K("incremental"), 4L);
        RT.printMethod = new MultiFn("print-method", new Builtin("print-dispatch", 2, 2, a -> { Object t = RT.get(RT.meta(a[0]), K("type"), null); return t instanceof Keyword ? t : a[0] == null ? null : a[0].getClass(); }), K("default"));
        RT.defaultPrint = new Builtin("print-default", 2, 2, a -> { RT.printPlain(a[0], (Writer) a[1]); return null; });
        RT.printMethod.methods = RT.printMethod.methods.assoc(K("default"), RT.defaultPrint);
        RT.CORE.intern("print-method").root = RT.printMethod;
        RT.CORE.intern("print-dup").root = RT.printMethod;
        RT.OUT.root = new PrintWriter(new OutputStreamWriter(System.out, StandardCharsets.UTF_8));
        RT.ERR.root = new PrintWriter(new OutputStreamWriter(System.err, StandardCharsets.UTF_8), true);
        RT.IN.root = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
    }
    static Object entry(Object o) {
        if (o instanceof Map.Entry) return o;
        throw new ClassCastException("class " + RT.className(o) + " cannot be cast to class java.util.Map$Entry");
    }
    static Object ratn(BigDecimal d) { d = d.stripTrailingZeros(); return d.scale() <= 0 ? Num.frac(d.toBigInteger(), BigInteger.ONE) : Num.frac(d.unscaledValue(), BigInteger.TEN.pow(d.scale())); }
    static Object[] bigs(Object[] a) { Object[] b = new Object[a.length]; for (int k = 0; k < a.length; k++) b[k] = bigUp(a[k]); return b; }
    static Object promoteIf(Object[] a, Object r) { for (Object x : a) if (x instanceof BigInteger) return r; return promote(r); }
    static Object fold(Object[] a, java.util.function.BinaryOperator<Object> op) { Object r = a[0]; for (int k = 1; k < a.length; k++) r = op.apply(r, a[k]); return r; }
    static Object reduce2(IFn f, Iterator<?> it) {
        if (!it.hasNext()) return f.invoke(RT.NOARGS);
        Object r = it.next();
        while (it.hasNext()) { r = f.invoke(new Object[]{r, it.next()}); if (r instanceof Reduced) return ((Reduced) r).v; }
        return r;
    }
}
