package ljc;

import java.util.*;

/** The data types: symbols, keywords, persistent collections, sequences. */
public class Types {
    private Types() {}
}

abstract class AFn implements IFn, Runnable, java.util.concurrent.Callable<Object>, Comparator<Object> {
    public void run() { invoke(RT.NOARGS); }
    public Object call() { return invoke(RT.NOARGS); }
    public int compare(Object x, Object y) { return RT.cmpWith(this, x, y); }
    static RuntimeException arity(int n, String name) {
        return new ArityException("Wrong number of args (" + n + ") passed to: " + name);
    }
}

class ArityException extends IllegalArgumentException {
    ArityException(String m) { super(m); }
}

class ExInfo extends RuntimeException {
    public final Object data;
    public ExInfo(String m, Object data, Throwable cause) { super(m, cause); this.data = data; }
    public Object getData() { return data; }
    public String toString() { return "clojure.lang.ExceptionInfo: " + getMessage() + " " + RT.prStr(data); }
}

/** A failure of this interpreter itself (something it does not know), never of the code it runs. */
class Unsupported extends Error {
    static volatile String last = null;   // so that code which catches everything does not hide it
    Unsupported(String m) { super(m); last = m; }
}

final class Symbol extends AFn implements IObj, Comparable<Object> {
    final String ns, name; final Object meta; final int hash;
    Symbol(String ns, String name, Object meta) {
        this.ns = ns; this.name = name; this.meta = meta;
        hash = 31 * name.hashCode() + (ns == null ? 7 : ns.hashCode());
    }
    static Symbol of(String s) {
        int i = s.equals("/") ? -1 : s.indexOf('/');
        return i <= 0 ? new Symbol(null, s, null) : new Symbol(s.substring(0, i), s.substring(i + 1), null);
    }
    static Symbol of(String ns, String name) { return new Symbol(ns, name, null); }
    public Object meta() { return meta; }
    public IObj withMeta(Object m) { return new Symbol(ns, name, m); }
    public boolean equals(Object o) {
        return o instanceof Symbol && ((Symbol) o).name.equals(name) && Objects.equals(((Symbol) o).ns, ns);
    }
    public int hashCode() { return hash; }
    public String toString() { return ns == null ? name : ns + "/" + name; }
    public int compareTo(Object o) {
        Symbol s = (Symbol) o;
        if (equals(s)) return 0;
        if (ns == null && s.ns != null) return -1;
        if (ns != null) {
            if (s.ns == null) return 1;
            int c = ns.compareTo(s.ns);
            if (c != 0) return c;
        }
        return name.compareTo(s.name);
    }
    public Object invoke(Object[] a) {
        if (a.length == 1) return RT.get(a[0], this, null);
        if (a.length == 2) return RT.get(a[0], this, a[1]);
        throw AFn.arity(a.length, toString());
    }
}

final class Keyword extends AFn implements Comparable<Object> {
    static final HashMap<Symbol, Keyword> table = new HashMap<>();
    final Symbol sym;
    private Keyword(Symbol s) { sym = s; }
    static synchronized Keyword of(Symbol s) {
        if (s.meta != null) s = new Symbol(s.ns, s.name, null);
        final Symbol t = s;
        return table.computeIfAbsent(s, k -> new Keyword(t));
    }
    static Keyword of(String s) { return of(Symbol.of(s)); }
    static Keyword of(String ns, String n) { return of(Symbol.of(ns, n)); }
    public String toString() { return ":" + sym; }
    public int hashCode() { return sym.hash + 0x9e3779b9; }
    public boolean equals(Object o) { return this == o; }
    public int compareTo(Object o) { return sym.compareTo(((Keyword) o).sym); }
    public Object invoke(Object[] a) {
        if (a.length == 1) return RT.get(a[0], this, null);
        if (a.length == 2) return RT.get(a[0], this, a[1]);
        throw AFn.arity(a.length, toString());
    }
}

/** Sequential things are equal element by element. */
abstract class Sequential extends AFn implements IObj, Iterable<Object> {
    public boolean equals(Object o) { return RT.equiv(this, o); }
    int h = 0;
    public int hashCode() {
        if (h == 0) { int x = 1; for (Object o : this) x = 31 * x + RT.hash(o); h = x == 0 ? 1 : x; }
        return h;
    }
    public String toString() { return RT.prStr(this); }
    public Object invoke(Object[] a) { throw new ClassCastException(getClass().getSimpleName() + " cannot be cast to class clojure.lang.IFn"); }
}

class PVector extends Sequential implements Comparable<Object> {
    static final class Store { Object[] a; int used; Store(Object[] a, int u) { this.a = a; used = u; } }
    static final PVector EMPTY = new PVector(new Store(new Object[0], 0), 0, null);
    final Store s; final int n; final Object meta;
    PVector(Store s, int n, Object meta) { this.s = s; this.n = n; this.meta = meta; }
    static PVector of(Object... a) { return a.length == 0 ? EMPTY : new PVector(new Store(a, a.length), a.length, null); }
    static PVector ofList(List<?> l) { return of(l.toArray()); }
    Object nth(int i) {
        if (i < 0 || i >= n) throw new IndexOutOfBoundsException();
        return s.a[i];
    }
    PVector conj(Object x) {
        synchronized (s) {
            if (s.used == n) {
                if (s.a.length == n) s.a = Arrays.copyOf(s.a, Math.max(8, n * 2));
                s.a[n] = x; s.used = n + 1;
                return new PVector(s, n + 1, meta);
            }
        }
        Object[] b = Arrays.copyOf(s.a, Math.max(8, n * 2));
        Arrays.fill(b, n, b.length, null);
        b[n] = x;
        return new PVector(new Store(b, n + 1), n + 1, meta);
    }
    PVector assocN(int i, Object x) {
        if (i == n) return conj(x);
        if (i < 0 || i > n) throw new IndexOutOfBoundsException();
        Object[] b = Arrays.copyOf(s.a, n); b[i] = x;
        return new PVector(new Store(b, n), n, meta);
    }
    PVector pop() {
        if (n == 0) throw new IllegalStateException("Can't pop empty vector");
        Object[] b = Arrays.copyOf(s.a, n - 1);
        return new PVector(new Store(b, n - 1), n - 1, meta);
    }
    PVector sub(int i, int j) {
        if (j < i || i < 0 || j > n) throw new IndexOutOfBoundsException();
        return of(Arrays.copyOfRange(s.a, i, j));
    }
    public Object meta() { return meta; }
    public IObj withMeta(Object m) { return new PVector(s, n, m); }
    public Iterator<Object> iterator() {
        return new Iterator<Object>() {
            int i = 0;
            public boolean hasNext() { return i < n; }
            public Object next() { if (i >= n) throw new NoSuchElementException(); return s.a[i++]; }
        };
    }
    public Object[] toArray() { return Arrays.copyOf(s.a, n); }
    public int compareTo(Object o) {
        PVector v = (PVector) o;
        if (n != v.n) return n < v.n ? -1 : 1;
        for (int i = 0; i < n; i++) { int c = RT.compare(s.a[i], v.s.a[i]); if (c != 0) return c; }
        return 0;
    }
    public Object invoke(Object[] a) {
        if (a.length != 1) throw AFn.arity(a.length, "PersistentVector");
        if (!RT.isInt(a[0])) throw new IllegalArgumentException("Key must be integer");
        return nth(((Number) a[0]).intValue());
    }
}

final class MapEntry extends PVector implements Map.Entry<Object, Object> {
    MapEntry(Object k, Object v) { super(new Store(new Object[]{k, v}, 2), 2, null); }
    public Object getKey() { return s.a[0]; }
    public Object getValue() { return s.a[1]; }
    public Object setValue(Object o) { throw new UnsupportedOperationException(); }
}

interface ISeq { Object first(); ISeq next(); }

abstract class ASeq extends Sequential implements ISeq {
    public Iterator<Object> iterator() {
        final ASeq me = this;
        return new Iterator<Object>() {
            ISeq s = me;
            public boolean hasNext() { return s != null; }
            public Object next() { if (s == null) throw new NoSuchElementException(); Object x = s.first(); s = s.next(); return x; }
        };
    }
    Object more() { ISeq n = next(); return n == null ? PList.EMPTY : n; }
}

/** Lists and conses alike; the empty list is its own class, and is not a seq of anything. */
final class Cons extends ASeq {
    final Object first, rest, meta; final boolean list;
    Cons(Object f, Object rest, Object meta, boolean list) { first = f; this.rest = rest; this.meta = meta; this.list = list; }
    public Object first() { return first; }
    public ISeq next() { return RT.seq(rest); }
    Object more() { return rest == null ? PList.EMPTY : rest; }
    public Object meta() { return meta; }
    public IObj withMeta(Object m) { return new Cons(first, rest, m, list); }
}

final class PList extends Sequential {
    static final PList EMPTY = new PList(null);
    final Object meta;
    PList(Object m) { meta = m; }
    public Object meta() { return meta; }
    public IObj withMeta(Object m) { return new PList(m); }
    public Iterator<Object> iterator() { return Collections.emptyIterator(); }
    static Object of(Object... a) {
        Object r = EMPTY;
        for (int i = a.length - 1; i >= 0; i--) r = new Cons(a[i], r, null, true);
        return r;
    }
    static Object ofList(List<?> l) { return of(l.toArray()); }
}

final class ArrSeq extends ASeq {
    final Object[] a; final int i, n; final Object meta;
    ArrSeq(Object[] a, int i, int n, Object meta) { this.a = a; this.i = i; this.n = n; this.meta = meta; }
    public Object first() { return a[i]; }
    public ISeq next() { return i + 1 < n ? new ArrSeq(a, i + 1, n, null) : null; }
    public Object meta() { return meta; }
    public IObj withMeta(Object m) { return new ArrSeq(a, i, n, m); }
}

final class StrSeq extends ASeq {
    final CharSequence s; final int i; final Object meta;
    StrSeq(CharSequence s, int i, Object m) { this.s = s; this.i = i; meta = m; }
    public Object first() { return s.charAt(i); }
    public ISeq next() { return i + 1 < s.length() ? new StrSeq(s, i + 1, null) : null; }
    public Object meta() { return meta; }
    public IObj withMeta(Object m) { return new StrSeq(s, i, m); }
}

final class IterSeq extends ASeq {
    final Object first, meta; final Iterator<?> it; private boolean done; private ISeq nxt;
    IterSeq(Object f, Iterator<?> it, Object m) { first = f; this.it = it; meta = m; }
    static ISeq of(Iterator<?> it) { return it.hasNext() ? new IterSeq(it.next(), it, null) : null; }
    public Object first() { return first; }
    public synchronized ISeq next() { if (!done) { nxt = of(it); done = true; } return nxt; }
    public Object meta() { return meta; }
    public IObj withMeta(Object m) { throw new Unsupported("metadata on an iterator's seq"); }
}

final class LazySeq extends Sequential implements ISeq {
    private IFn fn; private Object sv; private ISeq s; final Object meta;
    LazySeq(IFn f) { fn = f; meta = null; }
    LazySeq(ISeq s, Object m) { this.s = s; meta = m; }
    private synchronized Object sval() {
        if (fn != null) { sv = fn.invoke(RT.NOARGS); fn = null; }
        return sv != null ? sv : s;
    }
    synchronized ISeq seq() {
        sval();
        if (sv != null) {
            Object ls = sv; sv = null;
            while (ls instanceof LazySeq) ls = ((LazySeq) ls).sval();
            s = RT.seq(ls);
        }
        return s;
    }
    boolean realized() { return fn == null; }
    public Object first() { ISeq x = seq(); return x == null ? null : x.first(); }
    public ISeq next() { ISeq x = seq(); return x == null ? null : x.next(); }
    Object more() { ISeq x = seq(); return x == null ? PList.EMPTY : RT.more(x); }
    public Object meta() { return meta; }
    public IObj withMeta(Object m) { return new LazySeq(seq(), m); }
    public Iterator<Object> iterator() {
        return new Iterator<Object>() {
            ISeq s = seq();
            public boolean hasNext() { return s != null; }
            public Object next() { if (s == null) throw new NoSuchElementException(); Object x = s.first(); s = s.next(); return x; }
        };
    }
}

abstract class AMap extends AFn implements IObj, Iterable<Object> {
    static final Object NONE = new Object();
    abstract Object find(Object k);          // the value or NONE
    abstract Object key(Object k);           // the key as held
    abstract AMap assoc(Object k, Object v);
    abstract AMap without(Object k);
    abstract int count();
    abstract AMap empty();
    boolean has(Object k) { return find(k) != NONE; }
    Object get(Object k, Object d) { Object v = find(k); return v == NONE ? d : v; }
    int h = 0;
    public int hashCode() {
        if (h == 0) { int x = 0; for (Object e : this) { MapEntry m = (MapEntry) e; x += RT.hash(m.getKey()) * 31 ^ RT.hash(m.getValue()); } h = x == 0 ? 1 : x; }
        return h;
    }
    public boolean equals(Object o) { return RT.equiv(this, o); }
    public String toString() { return RT.prStr(this); }
    public Object invoke(Object[] a) {
        if (a.length == 1) return get(a[0], null);
        if (a.length == 2) return get(a[0], a[1]);
        throw AFn.arity(a.length, "PersistentMap");
    }
    static AMap of(Object... kv) {
        AMap m = PArrayMap.EMPTY;
        for (int i = 0; i + 1 < kv.length; i += 2) m = m.assoc(kv[i], kv[i + 1]);
        return m;
    }
}

final class PArrayMap extends AMap {
    static final PArrayMap EMPTY = new PArrayMap(new Object[0], null);
    static final int LIMIT = 8;
    final Object[] a; final Object meta;
    PArrayMap(Object[] a, Object m) { this.a = a; meta = m; }
    int idx(Object k) {
        if (k instanceof Keyword) { for (int i = 0; i < a.length; i += 2) if (a[i] == k) return i; return -1; }
        for (int i = 0; i < a.length; i += 2) if (RT.equiv(a[i], k)) return i;
        return -1;
    }
    Object find(Object k) { int i = idx(k); return i < 0 ? NONE : a[i + 1]; }
    Object key(Object k) { int i = idx(k); return i < 0 ? null : a[i]; }
    AMap assoc(Object k, Object v) {
        int i = idx(k);
        if (i >= 0) {
            if (a[i + 1] == v) return this;
            Object[] b = a.clone(); b[i + 1] = v; return new PArrayMap(b, meta);
        }
        if (a.length >= 2 * LIMIT) {
            AMap m = new PHashMap(null, 0, meta);
            for (int j = 0; j < a.length; j += 2) m = m.assoc(a[j], a[j + 1]);
            return m.assoc(k, v);
        }
        Object[] b = Arrays.copyOf(a, a.length + 2); b[a.length] = k; b[a.length + 1] = v;
        return new PArrayMap(b, meta);
    }
    AMap without(Object k) {
        int i = idx(k);
        if (i < 0) return this;
        Object[] b = new Object[a.length - 2];
        System.arraycopy(a, 0, b, 0, i); System.arraycopy(a, i + 2, b, i, a.length - i - 2);
        return new PArrayMap(b, meta);
    }
    int count() { return a.length / 2; }
    AMap empty() { return new PArrayMap(new Object[0], meta); }
    public Object meta() { return meta; }
    public IObj withMeta(Object m) { return new PArrayMap(a, m); }
    public Iterator<Object> iterator() {
        return new Iterator<Object>() {
            int i = 0;
            public boolean hasNext() { return i < a.length; }
            public Object next() { i += 2; return new MapEntry(a[i - 2], a[i - 1]); }
        };
    }
}

/** A persistent hash trie. */
final class PHashMap extends AMap {
    static abstract class N {
        abstract Object find(int sh, int h, Object k);
        abstract Object key(int sh, int h, Object k);
        abstract N put(int sh, int h, Object k, Object v, boolean[] added);
        abstract N del(int sh, int h, Object k);
        abstract void all(List<Object> out);
    }
    static final class Leaf extends N {
        final int h; final Object[] kv;     // more than one pair: they collide
        Leaf(int h, Object... kv) { this.h = h; this.kv = kv; }
        int at(Object k) { for (int i = 0; i < kv.length; i += 2) if (RT.equiv(kv[i], k)) return i; return -1; }
        Object find(int sh, int hh, Object k) { if (hh != h) return NONE; int i = at(k); return i < 0 ? NONE : kv[i + 1]; }
        Object key(int sh, int hh, Object k) { if (hh != h) return null; int i = at(k); return i < 0 ? null : kv[i]; }
        N put(int sh, int hh, Object k, Object v, boolean[] added) {
            if (hh == h) {
                int i = at(k);
                if (i >= 0) { Object[] b = kv.clone(); b[i + 1] = v; return new Leaf(h, b); }
                added[0] = true;
                Object[] b = Arrays.copyOf(kv, kv.length + 2); b[kv.length] = k; b[kv.length + 1] = v;
                return new Leaf(h, b);
            }
            N n = new Branch(1 << ((h >>> sh) & 31), new N[]{this});
            return n.put(sh, hh, k, v, added);
        }
        N del(int sh, int hh, Object k) {
            int i = hh == h ? at(k) : -1;
            if (i < 0) return this;
            if (kv.length == 2) return null;
            Object[] b = new Object[kv.length - 2];
            System.arraycopy(kv, 0, b, 0, i); System.arraycopy(kv, i + 2, b, i, kv.length - i - 2);
            return new Leaf(h, b);
        }
        void all(List<Object> out) { for (int i = 0; i < kv.length; i += 2) out.add(new MapEntry(kv[i], kv[i + 1])); }
    }
    static final class Branch extends N {
        final int bm; final N[] c;
        Branch(int bm, N[] c) { this.bm = bm; this.c = c; }
        Object find(int sh, int h, Object k) {
            int bit = 1 << ((h >>> sh) & 31);
            return (bm & bit) == 0 ? NONE : c[Integer.bitCount(bm & (bit - 1))].find(sh + 5, h, k);
        }
        Object key(int sh, int h, Object k) {
            int bit = 1 << ((h >>> sh) & 31);
            return (bm & bit) == 0 ? null : c[Integer.bitCount(bm & (bit - 1))].key(sh + 5, h, k);
        }
        N put(int sh, int h, Object k, Object v, boolean[] added) {
            int bit = 1 << ((h >>> sh) & 31), i = Integer.bitCount(bm & (bit - 1));
            if ((bm & bit) != 0) { N[] d = c.clone(); d[i] = c[i].put(sh + 5, h, k, v, added); return new Branch(bm, d); }
            added[0] = true;
            N[] d = new N[c.length + 1];
            System.arraycopy(c, 0, d, 0, i); d[i] = new Leaf(h, k, v); System.arraycopy(c, i, d, i + 1, c.length - i);
            return new Branch(bm | bit, d);
        }
        N del(int sh, int h, Object k) {
            int bit = 1 << ((h >>> sh) & 31), i = Integer.bitCount(bm & (bit - 1));
            if ((bm & bit) == 0) return this;
            N x = c[i].del(sh + 5, h, k);
            if (x == c[i]) return this;
            if (x != null) { N[] d = c.clone(); d[i] = x; return new Branch(bm, d); }
            if (c.length == 1) return null;
            N[] d = new N[c.length - 1];
            System.arraycopy(c, 0, d, 0, i); System.arraycopy(c, i + 1, d, i, c.length - i - 1);
            return new Branch(bm & ~bit, d);
        }
        void all(List<Object> out) { for (N n : c) n.all(out); }
    }
    final N root; final int n; final Object meta;
    PHashMap(N r, int n, Object m) { root = r; this.n = n; meta = m; }
    static int mix(Object k) { int h = RT.hash(k); h *= 0x85ebca6b; return h ^ (h >>> 15); }
    Object find(Object k) { return root == null ? NONE : root.find(0, mix(k), k); }
    Object key(Object k) { return root == null ? null : root.key(0, mix(k), k); }
    AMap assoc(Object k, Object v) {
        int h = mix(k);
        if (root == null) return new PHashMap(new Branch(1 << (h & 31), new N[]{new Leaf(h, k, v)}), 1, meta);
        boolean[] added = new boolean[1];
        N r = root.put(0, h, k, v, added);
        return new PHashMap(r, added[0] ? n + 1 : n, meta);
    }
    AMap without(Object k) {
        if (root == null || find(k) == NONE) return this;
        return new PHashMap(root.del(0, mix(k), k), n - 1, meta);
    }
    int count() { return n; }
    AMap empty() { return new PArrayMap(new Object[0], meta); }
    public Object meta() { return meta; }
    public IObj withMeta(Object m) { return new PHashMap(root, n, m); }
    public Iterator<Object> iterator() {
        ArrayList<Object> l = new ArrayList<>(n);
        if (root != null) root.all(l);
        return l.iterator();
    }
}

final class PSortedMap extends AMap {
    final TreeMap<Object, Object> t; final IFn cmp; final Object meta;
    PSortedMap(TreeMap<Object, Object> t, IFn c, Object m) { this.t = t; cmp = c; meta = m; }
    static PSortedMap make(final IFn c) {
        return new PSortedMap(new TreeMap<Object, Object>((x, y) -> c == null ? RT.compare(x, y) : RT.cmpWith(c, x, y)), c, null);
    }
    Object find(Object k) { return t.containsKey(k) ? t.get(k) : NONE; }
    Object key(Object k) { return t.containsKey(k) ? t.ceilingKey(k) : null; }
    AMap assoc(Object k, Object v) { TreeMap<Object, Object> u = new TreeMap<>(t); u.put(k, v); return new PSortedMap(u, cmp, meta); }
    AMap without(Object k) { if (!t.containsKey(k)) return this; TreeMap<Object, Object> u = new TreeMap<>(t); u.remove(k); return new PSortedMap(u, cmp, meta); }
    int count() { return t.size(); }
    AMap empty() { return make(cmp); }
    public Object meta() { return meta; }
    public IObj withMeta(Object m) { return new PSortedMap(t, cmp, m); }
    public Iterator<Object> iterator() {
        final Iterator<Map.Entry<Object, Object>> it = t.entrySet().iterator();
        return new Iterator<Object>() {
            public boolean hasNext() { return it.hasNext(); }
            public Object next() { Map.Entry<Object, Object> e = it.next(); return new MapEntry(e.getKey(), e.getValue()); }
        };
    }
}

final class PSet extends AFn implements IObj, Iterable<Object> {
    static final PSet EMPTY = new PSet(PArrayMap.EMPTY, null);
    final AMap m; final Object meta;
    PSet(AMap m, Object meta) { this.m = m; this.meta = meta; }
    PSet conj(Object x) { return m.has(x) ? this : new PSet(m.assoc(x, x), meta); }
    PSet disj(Object x) { return m.has(x) ? new PSet(m.without(x), meta) : this; }
    boolean has(Object x) { return m.has(x); }
    int count() { return m.count(); }
    public Object meta() { return meta; }
    public IObj withMeta(Object mm) { return new PSet(m, mm); }
    public Iterator<Object> iterator() {
        final Iterator<Object> it = m.iterator();
        return new Iterator<Object>() {
            public boolean hasNext() { return it.hasNext(); }
            public Object next() { return ((MapEntry) it.next()).getKey(); }
        };
    }
    public int hashCode() { int x = 7; for (Object o : this) x += RT.hash(o); return x; }
    public boolean equals(Object o) { return RT.equiv(this, o); }
    public String toString() { return RT.prStr(this); }
    public Object invoke(Object[] a) {
        if (a.length != 1) throw AFn.arity(a.length, "PersistentSet");
        return m.has(a[0]) ? m.key(a[0]) : null;
    }
}

/** Transients, changed in place as Clojure's are: a small map becomes another object when it grows past eight. */
final class TMap extends AFn {
    AMap m; boolean done;
    TMap(AMap m) { this.m = m; }
    void ok() { if (done) throw new IllegalAccessError("Transient used after persistent! call"); }
    TMap assoc(Object k, Object v) {
        ok();
        if (m instanceof PArrayMap && m.count() >= PArrayMap.LIMIT && !m.has(k)) return new TMap(m.assoc(k, v));
        m = m.assoc(k, v); return this;
    }
    TMap without(Object k) { ok(); m = m.without(k); return this; }
    public Object invoke(Object[] a) { ok(); return m.invoke(a); }
}
final class TVec extends AFn {
    PVector v; boolean done;
    TVec(PVector v) { this.v = v; }
    void ok() { if (done) throw new IllegalAccessError("Transient used after persistent! call"); }
    public Object invoke(Object[] a) { ok(); return v.invoke(a); }
}
final class TSet extends AFn {
    PSet s; boolean done;
    TSet(PSet s) { this.s = s; }
    void ok() { if (done) throw new IllegalAccessError("Transient used after persistent! call"); }
    public Object invoke(Object[] a) { ok(); return s.invoke(a); }
}

final class Reduced { final Object v; Reduced(Object v) { this.v = v; } }

interface IDeref { Object deref(); }
final class Atom implements IDeref {
    volatile Object v; Object meta; Atom(Object v) { this.v = v; }
    public Object deref() { return v; }
}
final class Volatile implements IDeref {
    Object v; Volatile(Object v) { this.v = v; }
    public Object deref() { return v; }
}
final class Delay implements IDeref {
    IFn f; Object v; RuntimeException ex;
    Delay(IFn f) { this.f = f; }
    public synchronized Object deref() {
        if (f != null) { IFn g = f; f = null; try { v = g.invoke(RT.NOARGS); } catch (RuntimeException e) { ex = e; } }
        if (ex != null) throw ex;
        return v;
    }
}
final class Fut implements IDeref {
    final java.util.concurrent.FutureTask<Object> t;
    Fut(IFn f) { t = new java.util.concurrent.FutureTask<>(() -> f.invoke(RT.NOARGS)); Thread th = new Thread(null, t, "future", 64L << 20); th.setDaemon(true); th.start(); }
    public Object deref() { try { return t.get(); } catch (Exception e) { throw RT.sneaky(e); } }
}
final class Eduction implements Iterable<Object> {
    final Object xf, coll;
    Eduction(Object xf, Object coll) { this.xf = xf; this.coll = coll; }
    public Iterator<Object> iterator() {
        final ArrayList<Object> l = new ArrayList<>();
        RT.transduce(xf, new Builtin("collect", 0, -1, a -> { if (a.length == 2) l.add(a[1]); return a.length == 0 ? null : a[0]; }), null, coll);
        return l.iterator();
    }
    public String toString() { return RT.prStr(RT.seqOrEmpty(this)); }
}

final class Builtin extends AFn {
    interface F { Object f(Object[] a) throws Exception; }
    final String name; final int min, max; final F f;
    Builtin(String n, int min, int max, F f) { name = n; this.min = min; this.max = max; this.f = f; }
    public Object invoke(Object[] a) {
        if (a.length < min || max >= 0 && a.length > max) throw AFn.arity(a.length, "clojure.core/" + name);
        try { return f.f(a); } catch (Exception e) { throw RT.sneaky(e); }
    }
    public String toString() { return "#object[" + name + "]"; }
}

final class Var extends AFn implements IDeref, IObj {
    static final Object UNBOUND = new Object() { public String toString() { return "Unbound"; } };
    final Namespace ns; final Symbol sym;
    volatile Object root = UNBOUND; volatile boolean dynamic, macro, priv; Object meta;
    Var(Namespace ns, Symbol sym) { this.ns = ns; this.sym = sym; }
    static final ThreadLocal<AMap> bindings = new ThreadLocal<>();     // Var -> Object[1]
    public Object deref() {
        if (dynamic) {
            AMap b = bindings.get();
            if (b != null) { Object x = b.find(this); if (x != AMap.NONE) return ((Object[]) x)[0]; }
        }
        return root;
    }
    void set(Object v) {
        AMap b = bindings.get();
        if (b != null) { Object x = b.find(this); if (x != AMap.NONE) { ((Object[]) x)[0] = v; return; } }
        throw new IllegalStateException("Can't change/establish root binding of: " + sym + " with set");
    }
    public Object invoke(Object[] a) {
        Object f = deref();
        if (f == UNBOUND) throw new IllegalStateException("Attempting to call unbound fn: " + this);
        return RT.fn(f).invoke(a);
    }
    public Object meta() { return meta; }
    public IObj withMeta(Object m) { meta = m; return this; }
    public boolean equals(Object o) { return this == o; }
    public int hashCode() { return System.identityHashCode(this); }
    public String toString() { return "#'" + ns.name + "/" + sym.name; }
}

final class Namespace {
    static final java.util.concurrent.ConcurrentHashMap<String, Namespace> all = new java.util.concurrent.ConcurrentHashMap<>();
    final String name;
    final java.util.concurrent.ConcurrentHashMap<String, Var> vars = new java.util.concurrent.ConcurrentHashMap<>(), refers = new java.util.concurrent.ConcurrentHashMap<>();
    final HashMap<String, String> aliases = new HashMap<>();
    final HashMap<String, Class<?>> imports = new HashMap<>();
    final HashSet<String> excluded = new HashSet<>();
    Namespace(String n) { name = n; }
    static Namespace of(String n) { return all.computeIfAbsent(n, Namespace::new); }
    Var intern(String s) { return vars.computeIfAbsent(s, k -> new Var(this, Symbol.of(null, s))); }
    public String toString() { return name; }
}

final class MultiFn extends AFn {
    final String name; final IFn dispatch; final Object dflt;
    volatile AMap methods = PArrayMap.EMPTY;
    AMap prefers = PArrayMap.EMPTY;
    MultiFn(String n, IFn d, Object dflt) { name = n; dispatch = d; this.dflt = dflt; }
    IFn find(Object dv) {
        Object m = methods.find(dv);
        if (m != AMap.NONE) return (IFn) m;
        Object best = AMap.NONE; IFn bf = null;
        for (Object e : methods) {
            MapEntry me = (MapEntry) e;
            if (RT.isa(dv, me.getKey())) {
                if (best == AMap.NONE || RT.isa(me.getKey(), best)) { best = me.getKey(); bf = (IFn) me.getValue(); }
            }
        }
        if (bf != null) return bf;
        m = methods.find(dflt);
        return m == AMap.NONE ? null : (IFn) m;
    }
    public Object invoke(Object[] a) {
        Object dv = dispatch.invoke(a);
        IFn f = find(dv);
        if (f == null) throw new IllegalArgumentException("No method in multimethod '" + name + "' for dispatch value: " + RT.prStr(dv));
        return f.invoke(a);
    }
}

final class Ratio extends Number implements Comparable<Object> {
    final java.math.BigInteger num, den;
    Ratio(java.math.BigInteger n, java.math.BigInteger d) { num = n; den = d; }
    java.math.BigDecimal dec(int scale) { return new java.math.BigDecimal(num).divide(new java.math.BigDecimal(den), scale, java.math.RoundingMode.HALF_UP); }
    public int intValue() { return num.divide(den).intValue(); }
    public long longValue() { return num.divide(den).longValue(); }
    public float floatValue() { return (float) doubleValue(); }
    public double doubleValue() { return new java.math.BigDecimal(num).divide(new java.math.BigDecimal(den), java.math.MathContext.DECIMAL64).doubleValue(); }
    public boolean equals(Object o) { return o instanceof Ratio && ((Ratio) o).num.equals(num) && ((Ratio) o).den.equals(den); }
    public int hashCode() { return num.hashCode() ^ den.hashCode(); }
    public String toString() { return num + "/" + den; }
    public int compareTo(Object o) { return Num.compare(this, (Number) o); }
}
