package ljc;

import java.lang.reflect.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;

/** Analyses forms into trees of nodes, which evaluate themselves. */
final class Interp {
    static abstract class Node {
        abstract Object ev(Object[] f);
        Object rep() { return getClass().getSimpleName(); }
    }
    static final class Recur { final Object[] a; Recur(Object[] a) { this.a = a; } }

    /** What a method of a function needs while it is analysed. */
    static final class Ctx {
        final Env parent; int n = 0;
        final ArrayList<int[]> caps = new ArrayList<>(); final ArrayList<Node> capSrc = new ArrayList<>();
        final LinkedHashMap<Binding, Integer> capMap = new LinkedHashMap<>();
        Ctx(Env parent) { this.parent = parent; }
        int slot() { return n++; }
    }
    static final class Binding { final Symbol sym; final int slot; final Binding next; Binding(Symbol s, int i, Binding n) { sym = s; slot = i; next = n; } }
    static final class Env {
        final Ctx ctx; final Binding b;
        Env(Ctx c, Binding b) { ctx = c; this.b = b; }
        Env with(Symbol s, int slot) { return new Env(ctx, new Binding(s, slot, b)); }
        Binding local(Symbol s) { if (s.ns != null) return null; for (Binding x = b; x != null; x = x.next) if (x.sym.name.equals(s.name)) return x; return null; }
    }
    static final class Local extends Node {
        final int i; Local(int i) { this.i = i; }
        Object ev(Object[] f) { return f[i]; }
    }
    static final class Const extends Node {
        final Object v; Const(Object v) { this.v = v; }
        Object ev(Object[] f) { return v; }
    }
    static final class VarNode extends Node {
        final Var v; VarNode(Var v) { this.v = v; }
        Object ev(Object[] f) { return v.dynamic ? v.deref() : v.root; }
    }

    static Node lookup(Env env, Symbol s) {
        Binding b = env.local(s);
        if (b != null) return new Local(b.slot);
        if (env.ctx.parent == null) return null;
        // captured already?
        for (Map.Entry<Binding, Integer> e : env.ctx.capMap.entrySet()) if (e.getKey() == find(env.ctx.parent, s)) return new Local(e.getValue());
        Node src = lookup(env.ctx.parent, s);
        if (src == null) return null;
        int slot = env.ctx.slot();
        env.ctx.capMap.put(find(env.ctx.parent, s), slot);
        env.ctx.caps.add(new int[]{slot}); env.ctx.capSrc.add(src);
        return new Local(slot);
    }
    /** The binding a symbol means, wherever it is. */
    static Binding find(Env env, Symbol s) {
        for (Env e = env; e != null; e = e.ctx.parent) { Binding b = e.local(s); if (b != null) return b; }
        return null;
    }

    static Object eval(Object form) {
        // top-level do: one form after another
        Object x = form;
        if (x instanceof Cons && Symbol.of("do").equals(((Cons) x).first)) {
            Object r = null;
            for (ISeq s = ((Cons) x).next(); s != null; s = s.next()) r = eval(s.first());
            return r;
        }
        Ctx c = new Ctx(null);
        x = expandAll(x, new Env(c, null));
        if (x instanceof Cons && Symbol.of("do").equals(((Cons) x).first)) return eval(x);
        Node n = analyze(x, new Env(c, null));
        return n.ev(new Object[c.n]);
    }
    static Object expandAll(Object x, Env env) {
        for (;;) { Object y = macroexpand1(x, env); if (y == x) return x; x = y; }
    }

    static Namespace curNs() { return (Namespace) RT.NS.deref(); }

    static final Set<String> SPECIAL = new HashSet<>(Arrays.asList("def", "if", "do", "let*", "let", "fn*", "fn", "loop*", "loop", "recur", "quote", "var", "throw", "try", "catch", "finally", "new", ".", "set!", "case", "ns", "&",
        "defmacro", "defn", "defn-"));
    static final Set<String> QUOTED_BARE = new HashSet<>(Arrays.asList("def", "if", "do", "let*", "fn*", "loop*", "recur", "quote", "var", "throw", "try", "catch", "finally", "new", ".", "set!", "&"));

    static Symbol syntaxResolve(Symbol y) {
        if (y.ns == null) {
            if (QUOTED_BARE.contains(y.name)) return y;
            if (y.name.startsWith(".") ) return y;
            if (y.name.endsWith(".") && y.name.length() > 1) { Class<?> c = classOf(y.name.substring(0, y.name.length() - 1)); return c != null ? Symbol.of(null, c.getName() + ".") : y; }
            Var v = resolveVar(y);
            if (v != null) return Symbol.of(v.ns.name, v.sym.name);
            if (SPECIAL.contains(y.name)) return Symbol.of("clojure.core", y.name);
            Class<?> c = classOf(y.name);
            if (c != null) return Symbol.of(null, c.getName());
            return Symbol.of(curNs().name, y.name);
        }
        String full = curNs().aliases.get(y.ns);
        return full != null ? Symbol.of(full, y.name) : y;
    }
    static Var resolveVar(Symbol s) { return resolveVarIn(curNs(), s); }
    static Var resolveVarIn(Namespace ns, Symbol s) {
        if (s.ns != null) {
            String full = ns.aliases.getOrDefault(s.ns, s.ns);
            Namespace o = Namespace.all.get(full);
            if (o == RT.CORE && booting && !o.vars.containsKey(s.name)) o.vars.put(s.name, new Var(o, Y(s.name)));
            return o == null ? null : o.vars.get(s.name);
        }
        Var v = ns.vars.get(s.name);
        if (v == null) v = ns.refers.get(s.name);
        if (v == null && !ns.excluded.contains(s.name)) v = RT.CORE.vars.get(s.name);
        return v;
    }
    static final HashMap<String, Class<?>> ALIASED = new HashMap<>();
    static {
        Object[] a = {"clojure.lang.IObj", IObj.class, "clojure.lang.IMeta", IObj.class, "clojure.lang.ExceptionInfo", ExInfo.class, "clojure.lang.IFn", IFn.class, "clojure.lang.AFn", AFn.class,
            "clojure.lang.Keyword", Keyword.class, "clojure.lang.Symbol", Symbol.class, "clojure.lang.PersistentVector", PVector.class, "clojure.lang.IPersistentVector", PVector.class,
            "clojure.lang.IPersistentMap", AMap.class, "clojure.lang.IPersistentSet", PSet.class, "clojure.lang.PersistentHashMap", AMap.class, "clojure.lang.PersistentArrayMap", AMap.class,
            "clojure.lang.ISeq", ISeq.class, "clojure.lang.LazySeq", LazySeq.class, "clojure.lang.Var", Var.class, "clojure.lang.Atom", Atom.class, "clojure.lang.Volatile", Volatile.class,
            "clojure.lang.IDeref", IDeref.class, "clojure.lang.MapEntry", MapEntry.class, "clojure.lang.Namespace", Namespace.class, "clojure.lang.ArityException", ArityException.class,
            "clojure.lang.Ratio", Ratio.class, "clojure.lang.BigInt", java.math.BigInteger.class, "clojure.lang.MultiFn", MultiFn.class, "clojure.lang.PersistentQueue", PVector.class, "clojure.lang.Sequential", Sequential.class,
            "clojure.lang.Reduced", Reduced.class, "clojure.lang.Delay", Delay.class, "clojure.lang.Associative", AMap.class, "clojure.lang.IExceptionInfo", ExInfo.class};
        for (int i = 0; i < a.length; i += 2) ALIASED.put((String) a[i], (Class<?>) a[i + 1]);
    }
    static final HashMap<String, Class<?>> classCache = new HashMap<>();
    static synchronized Class<?> classOf(String n) {
        Class<?> c = curNs().imports.get(n);
        if (c != null) return c;
        if (classCache.containsKey(n)) return classCache.get(n);
        c = ALIASED.get(n);
        if (c == null && n.startsWith("clojure.lang.") && !n.endsWith(".")) throw new Unsupported("class " + n);
        if (c == null && n.indexOf('.') > 0) c = tryClass(n);
        if (c == null && n.indexOf('.') < 0 && !n.isEmpty() && Character.isUpperCase(n.charAt(0))) {
            c = tryClass("java.lang." + n);
            if (c == null && (n.equals("BigDecimal") || n.equals("BigInteger"))) c = tryClass("java.math." + n);
            if (c == null && n.equals("Callable")) c = java.util.concurrent.Callable.class;
        }
        classCache.put(n, c);
        return c;
    }
    static Class<?> tryClass(String n) { try { return Class.forName(n); } catch (ClassNotFoundException | LinkageError e) { return null; } }

    static boolean isSpecial(Object head, String n) {
        return head instanceof Symbol && ((Symbol) head).name.equals(n) && (((Symbol) head).ns == null || ((Symbol) head).ns.equals("clojure.core"));
    }
    static Object macroexpand1(Object x, Env env) {
        if (!(x instanceof Cons || x instanceof ASeq || x instanceof LazySeq)) return x;
        Object head = RT.first(x);
        if (!(head instanceof Symbol)) return x;
        Symbol s = (Symbol) head;
        if (env != null && find(env, s) != null) return x;
        if ((s.ns == null || s.ns.equals("clojure.core")) && SPECIAL.contains(s.name) && !(s.ns == null && shadowed(s))) return x;
        Var v = resolveVar(s);
        if (v != null && v.macro) {
            if (v.priv && v.ns != curNs()) throw new IllegalStateException("var: " + v + " is not public");
            ArrayList<Object> a = new ArrayList<>();
            a.add(x); a.add(null);
            for (ISeq q = RT.next(x); q != null; q = q.next()) a.add(q.first());
            return RT.call(v.deref(), a.toArray());
        }
        if (v != null) return x;
        if (s.ns == null && s.name.length() > 1 && s.name.startsWith(".") && !s.name.equals("..")) {
            ISeq r = RT.next(x);
            if (r == null) throw new IllegalArgumentException("Malformed member expression, expecting (.member target ...)");
            return new Cons(Symbol.of("."), new Cons(r.first(), new Cons(Symbol.of(null, s.name.substring(1)), RT.seqOrEmpty(r.next()), null, true), null, true), null, true);
        }
        if (s.ns == null && s.name.length() > 1 && s.name.endsWith(".")) {
            return new Cons(Symbol.of("new"), new Cons(Symbol.of(null, s.name.substring(0, s.name.length() - 1)), RT.seqOrEmpty(RT.next(x)), null, true), null, true);
        }
        if (s.ns != null && classOf(s.ns) != null && !curNs().aliases.containsKey(s.ns)) {
            if (s.name.startsWith(".")) {   // 1.12: (String/.length s)
                ISeq r = RT.next(x);
                return new Cons(Symbol.of("."), new Cons(r.first(), new Cons(Symbol.of(null, s.name.substring(1)), RT.seqOrEmpty(r.next()), null, true), null, true), null, true);
            }
            if (s.name.equals("new")) return new Cons(Symbol.of("new"), new Cons(Symbol.of(null, s.ns), RT.seqOrEmpty(RT.next(x)), null, true), null, true);
            return new Cons(Symbol.of("."), new Cons(Symbol.of(null, s.ns), new Cons(Symbol.of(null, s.name), RT.seqOrEmpty(RT.next(x)), null, true), null, true), null, true);
        }
        return x;
    }
    static boolean shadowed(Symbol s) { return !QUOTED_BARE.contains(s.name) && curNs().vars.containsKey(s.name) && curNs() != RT.CORE; }

    static Node[] nodes(ISeq s, Env env) {
        ArrayList<Node> l = new ArrayList<>();
        for (; s != null; s = s.next()) l.add(analyze(s.first(), env));
        return l.toArray(new Node[0]);
    }
    static Object[] evs(Node[] ns, Object[] f) {
        Object[] a = new Object[ns.length];
        for (int i = 0; i < a.length; i++) a[i] = ns[i].ev(f);
        return a;
    }
    static Symbol Y(String s) { return Symbol.of(s); }
    static Object L(Object... a) { return PList.of(a); }

    static Node analyze(Object x, Env env) {
        if (x instanceof Symbol) return symbol((Symbol) x, env);
        if (x instanceof Cons || x instanceof ASeq || x instanceof LazySeq) {
            if (RT.seq(x) == null) return new Const(PList.EMPTY);
            Object y = expandAll(x, env);
            if (!(y instanceof Cons || y instanceof ASeq || y instanceof LazySeq)) return analyze(y, env);
            if (RT.seq(y) == null) return new Const(PList.EMPTY);
            return list(y, env);
        }
        if (x instanceof PVector) {
            final Node[] ns = nodes(RT.seq(x), env); final Object m = ((PVector) x).meta;
            return new Node() { Object ev(Object[] f) { PVector v = PVector.of(evs(ns, f)); return m == null ? v : v.withMeta(m); } };
        }
        if (x instanceof AMap) {
            ArrayList<Node> l = new ArrayList<>();
            for (Object e : (AMap) x) { l.add(analyze(((MapEntry) e).getKey(), env)); l.add(analyze(((MapEntry) e).getValue(), env)); }
            final Node[] ns = l.toArray(new Node[0]); final Object m = RT.meta(x);
            return new Node() {
                Object ev(Object[] f) {
                    Object[] a = evs(ns, f); AMap r = PArrayMap.EMPTY;
                    for (int i = 0; i < a.length; i += 2) { if (r.has(a[i])) throw new IllegalArgumentException("Duplicate key: " + RT.prStr(a[i])); r = r.assoc(a[i], a[i + 1]); }
                    return m == null ? r : r.withMeta(m);
                }
            };
        }
        if (x instanceof PSet) {
            final Node[] ns = nodes(RT.seq(x), env);
            return new Node() { Object ev(Object[] f) { PSet r = PSet.EMPTY; for (Object o : evs(ns, f)) r = r.conj(o); return r; } };
        }
        return new Const(x);
    }
    static Node symbol(Symbol s, Env env) {
        Node l = s.ns == null ? lookup(env, s) : null;
        if (l != null) return l;
        if (s.ns != null && !curNs().aliases.containsKey(s.ns) && !Namespace.all.containsKey(s.ns)) {
            final Class<?> c = classOf(s.ns);
            if (c != null) {
                if (s.name.equals("new")) return new Const(new Builtin("new", 0, -1, a -> construct(c, a)));
                try {
                    final Field fd = c.getField(s.name);
                    return new Node() { Object ev(Object[] f) { try { return RT.box(fd.get(null)); } catch (IllegalAccessException e) { throw RT.sneaky(e); } } };
                } catch (NoSuchFieldException e) {
                    final String m = s.name;
                    if (m.startsWith(".")) return new Const(new Builtin(m, 1, -1, a -> invokeMethod(a[0], m.substring(1), Arrays.copyOfRange(a, 1, a.length))));
                    boolean any = false;
                    for (Method q : c.getMethods()) if (q.getName().equals(m) && Modifier.isStatic(q.getModifiers())) any = true;
                    if (any) return new Const(new Builtin(m, 0, -1, a -> invokeStatic(c, m, a)));
                }
            }
        }
        Var v = resolveVar(s);
        if (v != null) {
            if (v.macro) throw new RuntimeException("Can't take value of a macro: " + v);
            if (v.priv && v.ns != curNs()) throw new IllegalStateException("var: " + v + " is not public");
            return new VarNode(v);
        }
        Class<?> c = s.ns == null ? classOf(s.name) : null;
        if (c != null) return new Const(c);
        if (booting && s.ns == null && curNs() == RT.CORE) { Var w = new Var(RT.CORE, s); RT.CORE.vars.put(s.name, w); return new VarNode(w); }
        if (s.ns != null && (curNs().aliases.containsKey(s.ns) || Namespace.all.containsKey(s.ns))) unknown(s);
        if (s.ns != null) throw new RuntimeException("No such namespace: " + s.ns);
        if (s.ns == null && coreNames().contains(s.name)) throw new Unsupported("not known to this interpreter: clojure.core/" + s.name);
        throw new RuntimeException("Unable to resolve symbol: " + s + " in this context");
    }
    static HashSet<String> coreNames = null;
    /** Every name of Clojure's own core: one of these unknown is a gap here, not a mistake there. */
    static HashSet<String> coreNames() {
        if (coreNames == null)
            try { coreNames = new HashSet<>(Arrays.asList(new String(Files.readAllBytes(libs.resolve("clojure/core-names.txt")), StandardCharsets.UTF_8).trim().split("\\s+"))); }
            catch (java.io.IOException e) { throw new Unsupported("no core-names.txt"); }
        return coreNames;
    }
    /** A var nobody defines: where the namespace is one of the libraries written for this interpreter, that is its own gap. */
    static void unknown(Symbol s) {
        String full = curNs().aliases.getOrDefault(s.ns, s.ns);
        if (LIBS.contains(full)) throw new Unsupported("not known to this interpreter: " + full + "/" + s.name);
        throw new RuntimeException("No such var: " + s);
    }
    static final HashSet<String> LIBS = new HashSet<>();

    static Node body(ISeq s, Env env) {
        if (s == null) return new Const(null);
        if (s.next() == null) return analyze(s.first(), env);
        final Node[] ns = nodes(s, env);
        return new Node() { Object ev(Object[] f) { int k = ns.length - 1; for (int i = 0; i < k; i++) ns[i].ev(f); return ns[k].ev(f); } };
    }
    static RuntimeException bad(String m) { return new RuntimeException("Syntax error: " + m); }

    static Node list(Object x, Env env) {
        Object head = RT.first(x);
        ISeq rest = RT.next(x);
        if (head instanceof Symbol && find(env, (Symbol) head) == null) {
            Symbol s = (Symbol) head;
            if ((s.ns == null || s.ns.equals("clojure.core")) && SPECIAL.contains(s.name) && !(s.ns == null && shadowed(s))) return special(s.name, x, rest, env);
        }
        final Node fn = analyze(head, env);
        final Node[] as = nodes(rest, env);
        if (head instanceof Keyword && as.length == 1) {
            final Keyword k = (Keyword) head; final Node a = as[0];
            return new Node() { Object ev(Object[] f) { return RT.get(a.ev(f), k, null); } };
        }
        final Object h = head;
        return new Node() {
            Object ev(Object[] f) {
                Object g = fn.ev(f);
                if (g instanceof IFn) return ((IFn) g).invoke(evs(as, f));
                if (g == Var.UNBOUND) throw new IllegalStateException("Attempting to call unbound fn: " + h);
                evs(as, f);
                if (g == null) throw new NullPointerException("Cannot invoke \"clojure.lang.IFn.invoke()\": " + h + " is nil");
                throw new ClassCastException("class " + RT.className(g) + " cannot be cast to class clojure.lang.IFn");
            }
        };
    }
    static Node special(String n, Object form, ISeq a, Env env) {
        switch (n) {
            case "quote": return new Const(RT.first(a));
            case "do": return body(a, env);
            case "if": {
                if (a == null || a.next() == null || RT.count(a) > 3) throw bad("if");
                final Node c = analyze(a.first(), env), t = analyze(a.next().first(), env), e = a.next().next() == null ? new Const(null) : analyze(a.next().next().first(), env);
                return new Node() { Object ev(Object[] f) { return RT.truthy(c.ev(f)) ? t.ev(f) : e.ev(f); } };
            }
            case "let": case "let*": return let(a, env);
            case "loop": case "loop*": return loop(a, env);
            case "recur": {
                final Node[] ns = nodes(a, env);
                return new Node() { Object ev(Object[] f) { return new Recur(evs(ns, f)); } };
            }
            case "fn": case "fn*": return fn(a, env, RT.meta(form));
            case "def": return def(a, env);
            case "defn": case "defn-": case "defmacro": return defn(n, a, env);
            case "var": {
                Symbol s = (Symbol) a.first(); Var v = resolveVar(s);
                if (v == null) { if (s.ns != null) unknown(s); throw new RuntimeException("Unable to resolve var: " + s + " in this context"); }
                return new Const(v);
            }
            case "throw": {
                final Node e = analyze(a.first(), env);
                return new Node() { Object ev(Object[] f) { Object t = e.ev(f); if (t == null) throw new NullPointerException(); if (!(t instanceof Throwable)) throw new ClassCastException("class " + RT.className(t) + " cannot be cast to class java.lang.Throwable"); throw RT.sneaky((Throwable) t); } };
            }
            case "try": return tryNode(a, env);
            case "new": {
                Object cs = a.first(); final Class<?> c = cs instanceof Symbol ? classOf(cs.toString()) : (Class<?>) cs;
                if (c == null) throw new RuntimeException("Unable to resolve classname: " + cs);
                final Node[] ns = nodes(a.next(), env);
                return new Node() { Object ev(Object[] f) { return construct(c, evs(ns, f)); } };
            }
            case ".": return dot(a, env);
            case "set!": {
                final Node v = analyze(a.next().first(), env); final Var t = resolveVar((Symbol) a.first());
                if (t == null) throw new Unsupported("set! of a field");
                return new Node() { Object ev(Object[] f) { Object x = v.ev(f); t.set(x); return x; } };
            }
            case "case": return caseNode(a, env);
            case "ns": return nsNode(a);
        }
        throw bad(n);
    }

    // --- binding forms
    /** Emits the bindings of a destructuring pattern: a list of (slot, node). */
    static Env bind(Object pat, Node val, Env env, List<Object[]> out) {
        if (pat instanceof Symbol) {
            Symbol s = (Symbol) pat;
            if (s.ns != null) throw bad("can't let qualified name: " + s);
            int k = env.ctx.slot(); out.add(new Object[]{k, val});
            return env.with(s, k);
        }
        if (pat instanceof PVector) {
            int k = env.ctx.slot(); out.add(new Object[]{k, val});
            Object[] ps = ((PVector) pat).toArray();
            boolean hasRest = false;
            for (Object p : ps) if (p instanceof Symbol && ((Symbol) p).name.equals("&")) hasRest = true;
            int idx = 0, restSlot = -1;
            if (hasRest) {   // as Clojure does: walk a seq
                restSlot = env.ctx.slot(); final int kk = k;
                out.add(new Object[]{restSlot, new Node() { Object ev(Object[] f) { return RT.seq(f[kk]); } }});
            }
            for (int i = 0; i < ps.length; i++) {
                Object p = ps[i];
                if (p instanceof Symbol && ((Symbol) p).name.equals("&")) {
                    final int rs = restSlot;
                    Node r = new Local(rs);
                    Object rp = ps[++i];
                    env = bind(rp, rp instanceof AMap ? mapArgs(r) : r, env, out);
                } else if (p == Keyword.of("as")) {
                    env = bind(ps[++i], new Local(k), env, out);
                } else {
                    final int ix = idx++;
                    if (hasRest) {
                        final int rs = restSlot; int vs = env.ctx.slot();
                        out.add(new Object[]{vs, new Node() { Object ev(Object[] f) { Object x = RT.first(f[rs]); f[rs] = RT.next(f[rs]); return x; } }});
                        env = bind(p, new Local(vs), env, out);
                    } else {
                        final int kk = k;
                        env = bind(p, new Node() { Object ev(Object[] f) { return RT.nth(f[kk], ix, null, true); } }, env, out);
                    }
                }
            }
            return env;
        }
        if (pat instanceof AMap) {
            final int k = env.ctx.slot(); out.add(new Object[]{k, mapArgs(val)});
            AMap m = (AMap) pat;
            AMap defaults = (AMap) m.get(Keyword.of("or"), PArrayMap.EMPTY);
            if (m.has(Keyword.of("as"))) env = bind(m.get(Keyword.of("as"), null), new Local(k), env, out);
            for (Object e : m) {
                Object key = ((MapEntry) e).getKey(), v = ((MapEntry) e).getValue();
                if (key instanceof Keyword) {
                    Keyword kw = (Keyword) key;
                    String nm = kw.sym.name;
                    if (kw.sym.ns == null && (nm.equals("or") || nm.equals("as"))) continue;
                    if (nm.equals("keys") || nm.equals("syms") || nm.equals("strs")) {
                        for (Object o : (PVector) v) {
                            Symbol y = o instanceof Keyword ? ((Keyword) o).sym : (Symbol) o;
                            String ns = y.ns != null ? y.ns : kw.sym.ns;
                            Object look = nm.equals("keys") ? Keyword.of(Symbol.of(ns, y.name)) : nm.equals("syms") ? Symbol.of(ns, y.name) : (Object) y.name;
                            env = bindKey(Symbol.of(null, y.name), new Const(look), k, defaults, env, out);
                        }
                        continue;
                    }
                    throw bad("map destructuring: " + kw);
                }
                env = bindKey(key, analyze(v, env), k, defaults, env, out);
            }
            return env;
        }
        throw bad("unsupported binding form: " + RT.prStr(pat));
    }
    static Env bindKey(Object pat, final Node key, final int k, AMap defaults, Env env, List<Object[]> out) {
        Object d = pat instanceof Symbol ? defaults.find(Symbol.of(null, ((Symbol) pat).name)) : AMap.NONE;
        final Node dn = d == AMap.NONE ? null : analyze(d, env);
        return bind(pat, new Node() {
            Object ev(Object[] f) {
                Object kk = key.ev(f);
                if (dn == null) return RT.get(f[k], kk, null);
                Object v = RT.get(f[k], kk, AMap.NONE);
                return v == AMap.NONE ? dn.ev(f) : v;
            }
        }, env, out);
    }
    static Node mapArgs(final Node v) {
        return new Node() {
            Object ev(Object[] f) {
                Object x = v.ev(f);
                if (x instanceof ISeq || x instanceof PList) {
                    Object[] a = RT.array(x);
                    if (a.length == 1) return a[0] == null ? PArrayMap.EMPTY : a[0];
                    AMap m = PArrayMap.EMPTY;
                    for (int i = 0; i + 1 < a.length; i += 2) m = m.assoc(a[i], a[i + 1]);
                    if (a.length % 2 == 1) m = (AMap) RT.conj(m, a[a.length - 1]);
                    return m;
                }
                return x;
            }
        };
    }
    static Node let(ISeq a, Env env) {
        Object[] bs = ((PVector) a.first()).toArray();
        if (bs.length % 2 != 0) throw bad("let requires an even number of forms in binding vector");
        ArrayList<Object[]> out = new ArrayList<>();
        for (int i = 0; i < bs.length; i += 2) env = bind(bs[i], analyze(bs[i + 1], env), env, out);
        final Node b = body(a.next(), env);
        final int[] slots = new int[out.size()]; final Node[] vals = new Node[slots.length];
        for (int i = 0; i < slots.length; i++) { slots[i] = (Integer) out.get(i)[0]; vals[i] = (Node) out.get(i)[1]; }
        return new Node() { Object ev(Object[] f) { for (int i = 0; i < slots.length; i++) f[slots[i]] = vals[i].ev(f); return b.ev(f); } };
    }
    static Node loop(ISeq a, Env env) {
        Object[] bs = ((PVector) a.first()).toArray();
        final int n = bs.length / 2; final int[] slots = new int[n]; final Node[] inits = new Node[n];
        // Each initial value may see the destructured names before it.
        ArrayList<Object[]> pre = new ArrayList<>(); Env e0 = env;
        final List<List<Object[]>> pres = new ArrayList<>();
        for (int i = 0; i < n; i++) {
            inits[i] = analyze(bs[2 * i + 1], e0);
            slots[i] = env.ctx.slot();
            ArrayList<Object[]> o = new ArrayList<>();
            e0 = bs[2 * i] instanceof Symbol ? e0.with((Symbol) bs[2 * i], slots[i]) : bind(bs[2 * i], new Local(slots[i]), e0, o);
            pres.add(o);
        }
        final Node b = body(a.next(), e0);
        return new Node() {
            Object ev(Object[] f) {
                for (int i = 0; i < n; i++) { f[slots[i]] = inits[i].ev(f); for (Object[] o : pres.get(i)) f[(Integer) o[0]] = ((Node) o[1]).ev(f); }
                for (;;) {
                    Object r = b.ev(f);
                    if (!(r instanceof Recur)) return r;
                    Object[] v = ((Recur) r).a;
                    if (v.length != n) throw new IllegalArgumentException("Mismatched argument count to recur, expected: " + n + " args, got: " + v.length);
                    for (int i = 0; i < n; i++) f[slots[i]] = v[i];
                    for (List<Object[]> l : pres) for (Object[] o : l) f[(Integer) o[0]] = ((Node) o[1]).ev(f);
                }
            }
        };
    }

    // --- functions
    static final class Method0 {
        int req; boolean rest; int n; int[] params; int[] capSlots; Node[] capSrc; int selfSlot = -1;
        int[] preSlots; Node[] pre; Node body;
    }
    static final class Fn extends AFn implements IObj {
        final FnNode node; final Object[][] caps; Object meta;
        Fn(FnNode n, Object[][] c) { node = n; caps = c; meta = n.meta; }
        public Object meta() { return meta; }
        public IObj withMeta(Object m) { Fn g = new Fn(node, caps); g.meta = m; return g; }
        public String toString() { return "#object[" + node.name + "]"; }
        public Object invoke(Object[] a) {
            Method0 m = a.length < node.fixed.length ? node.fixed[a.length] : null; int mi;
            if (m == null) {
                m = node.variadic;
                if (m == null || a.length < m.req) throw AFn.arity(a.length, node.name);
            }
            Object[] cs = caps[node.methods.indexOf(m)];
            Object[] f = new Object[m.n];
            for (int i = 0; i < cs.length; i++) f[m.capSlots[i]] = cs[i];
            if (m.selfSlot >= 0) f[m.selfSlot] = this;
            for (int i = 0; i < m.req; i++) f[m.params[i]] = a[i];
            if (m.rest) f[m.params[m.req]] = a.length > m.req ? new ArrSeq(a, m.req, a.length, null) : null;
            return run(m, f);
        }
        /** Called through apply: the rest may be a seq of any length, and need not be realised. */
        Object applyTo(Object[] lead, Object restSeq) {
            Method0 m = node.variadic;
            Object[] cs = caps[node.methods.indexOf(m)];
            Object[] f = new Object[m.n];
            for (int i = 0; i < cs.length; i++) f[m.capSlots[i]] = cs[i];
            if (m.selfSlot >= 0) f[m.selfSlot] = this;
            for (int i = 0; i < m.req; i++) f[m.params[i]] = lead[i];
            f[m.params[m.req]] = restSeq;
            return run(m, f);
        }
        private Object run(Method0 m, Object[] f) {
            for (;;) {
                for (int i = 0; i < m.pre.length; i++) f[m.preSlots[i]] = m.pre[i].ev(f);
                Object r = m.body.ev(f);
                if (!(r instanceof Recur)) return r;
                Object[] v = ((Recur) r).a;
                for (int i = 0; i < m.params.length; i++) f[m.params[i]] = v[i];
            }
        }
    }
    static final class FnNode extends Node {
        String name; Method0[] fixed; Method0 variadic; ArrayList<Method0> methods = new ArrayList<>(); Object meta;
        Object ev(Object[] f) {
            Object[][] caps = new Object[methods.size()][];
            for (int i = 0; i < caps.length; i++) {
                Method0 m = methods.get(i); Object[] c = new Object[m.capSrc.length];
                for (int j = 0; j < c.length; j++) c[j] = m.capSrc[j].ev(f);
                caps[i] = c;
            }
            return new Fn(this, caps);
        }
    }
    static Node fn(ISeq a, Env env, Object meta) {
        Symbol self = null;
        if (a.first() instanceof Symbol) { self = (Symbol) a.first(); a = a.next(); }
        return fnNode(self, a, env, curNs().name + "/" + (self == null ? "fn" : self.name));
    }
    static FnNode fnNode(Symbol self, ISeq a, Env env, String name) {
        FnNode fnode = new FnNode(); fnode.name = name;
        ArrayList<Object> methods = new ArrayList<>();
        if (a.first() instanceof PVector) methods.add(new Cons(a.first(), RT.seqOrEmpty(a.next()), null, true));
        else for (ISeq s = a; s != null; s = s.next()) methods.add(s.first());
        int max = 0;
        for (Object o : methods) {
            PVector ps = (PVector) RT.first(o); ISeq bd = RT.next(o);
            Method0 m = new Method0(); Ctx c = new Ctx(env); Env e = new Env(c, null);
            if (self != null) { m.selfSlot = c.slot(); e = e.with(self, m.selfSlot); }
            ArrayList<Integer> params = new ArrayList<>(); ArrayList<Object[]> pre = new ArrayList<>(); ArrayList<Object[]> pats = new ArrayList<>();
            Object[] pa = ps.toArray();
            for (int i = 0; i < pa.length; i++) {
                if (pa[i] instanceof Symbol && ((Symbol) pa[i]).name.equals("&")) { m.rest = true; continue; }
                int k = c.slot(); params.add(k);
                if (pa[i] instanceof Symbol) e = e.with((Symbol) pa[i], k); else pats.add(new Object[]{pa[i], k});
                if (!m.rest) m.req++;
            }
            for (Object[] p : pats) e = bind(p[0], p[0] instanceof AMap ? mapArgs(new Local((Integer) p[1])) : new Local((Integer) p[1]), e, pre);
            // pre- and postconditions
            if (bd != null && bd.first() instanceof AMap && bd.next() != null && (((AMap) bd.first()).has(Keyword.of("pre")) || ((AMap) bd.first()).has(Keyword.of("post")))) {
                AMap cond = (AMap) bd.first(); bd = bd.next();
                Object b = new Cons(Y("do"), bd, null, true);
                Object post = cond.get(Keyword.of("post"), null);
                if (post != null) {
                    ArrayList<Object> l = new ArrayList<>(Arrays.asList(Y("let*"), PVector.of(Y("%"), b)));
                    for (Object p : (PVector) post) l.add(L(Symbol.of("clojure.core", "assert"), p));
                    l.add(Y("%")); b = PList.ofList(l);
                }
                ArrayList<Object> l = new ArrayList<>();
                Object prec = cond.get(Keyword.of("pre"), null);
                if (prec != null) for (Object p : (PVector) prec) l.add(L(Symbol.of("clojure.core", "assert"), p));
                l.add(b); bd = RT.seq(PList.ofList(l));
            }
            m.body = body(bd, e);
            m.params = params.stream().mapToInt(Integer::intValue).toArray();
            m.preSlots = new int[pre.size()]; m.pre = new Node[pre.size()];
            for (int i = 0; i < m.pre.length; i++) { m.preSlots[i] = (Integer) pre.get(i)[0]; m.pre[i] = (Node) pre.get(i)[1]; }
            m.capSlots = new int[c.caps.size()]; m.capSrc = c.capSrc.toArray(new Node[0]);
            for (int i = 0; i < m.capSlots.length; i++) m.capSlots[i] = c.caps.get(i)[0];
            m.n = c.n;
            fnode.methods.add(m);
            if (m.rest) fnode.variadic = m; else max = Math.max(max, m.req + 1);
        }
        fnode.fixed = new Method0[max];
        for (Method0 m : fnode.methods) if (!m.rest) fnode.fixed[m.req] = m;
        return fnode;
    }
    static Node def(ISeq a, Env env) {
        final Symbol s = (Symbol) a.first();
        Object doc = null; ISeq r = a.next();
        if (r != null && r.next() != null && r.first() instanceof String) { doc = r.first(); r = r.next(); }
        Namespace ns = curNs();
        if (s.ns != null && !s.ns.equals(ns.name)) throw new RuntimeException("Can't create defs outside of current ns");
        final Var v = ns.intern(s.name);
        Object m0 = s.meta;
        v.dynamic = m0 != null && RT.truthy(RT.get(m0, Keyword.of("dynamic"), null));
        if (m0 != null) { v.priv = RT.truthy(RT.get(m0, Keyword.of("private"), null)); v.meta = m0; if (RT.truthy(RT.get(m0, Keyword.of("macro"), null))) v.macro = true; }
        final Node val = r == null ? null : analyze(r.first(), env);
        return new Node() { Object ev(Object[] f) { if (val != null) v.root = val.ev(f); return v; } };
    }
    static Node defn(String kind, ISeq a, Env env) {
        Symbol s = (Symbol) a.first(); ISeq r = a.next(); Object m = s.meta;
        if (r.first() instanceof String) { m = RT.assoc(m, Keyword.of("doc"), r.first()); r = r.next(); }
        if (r.first() instanceof AMap) { for (Object e : (AMap) r.first()) m = RT.assoc(m, ((MapEntry) e).getKey(), ((MapEntry) e).getValue()); r = r.next(); }
        Namespace ns = curNs();
        final Var v = ns.intern(s.name);
        v.priv = kind.equals("defn-") || m != null && RT.truthy(RT.get(m, Keyword.of("private"), null));
        v.meta = m; final boolean macro = kind.equals("defmacro");
        v.macro = macro; v.dynamic = m != null && RT.truthy(RT.get(m, Keyword.of("dynamic"), null));
        if (macro) {
            ArrayList<Object> ms = new ArrayList<>();
            if (r.first() instanceof PVector) ms.add(new Cons(r.first(), RT.seqOrEmpty(r.next()), null, true)); else for (ISeq q = r; q != null; q = q.next()) if (!(q.first() instanceof AMap)) ms.add(q.first());
            ArrayList<Object> out = new ArrayList<>();
            for (Object o : ms) {
                ArrayList<Object> ps = new ArrayList<>(Arrays.asList(Y("&form"), Y("&env")));
                for (Object p : (PVector) RT.first(o)) ps.add(p);
                out.add(new Cons(PVector.ofList(ps), RT.seqOrEmpty(RT.next(o)), null, true));
            }
            r = RT.seq(PList.ofList(out));
        } else {
            ArrayList<Object> out = new ArrayList<>();   // a trailing attribute map
            if (!(r.first() instanceof PVector)) { for (ISeq q = r; q != null; q = q.next()) if (!(q.first() instanceof AMap)) out.add(q.first()); r = RT.seq(PList.ofList(out)); }
        }
        final FnNode fnode = fnNode(s, r, env, ns.name + "/" + s.name);
        return new Node() { Object ev(Object[] f) { v.root = fnode.ev(f); return v; } };
    }
    static Node tryNode(ISeq a, Env env) {
        ArrayList<Object> bd = new ArrayList<>();
        final ArrayList<Object[]> catches = new ArrayList<>(); Node fin = null;
        for (ISeq s = a; s != null; s = s.next()) {
            Object x = s.first(); Object h = x instanceof Cons ? ((Cons) x).first : x instanceof ASeq ? RT.first(x) : null;
            if (isSpecial(h, "catch")) {
                ISeq c = RT.next(x); Class<?> k = classOf(c.first().toString());
                if (k == null) throw new RuntimeException("Unable to resolve classname: " + c.first());
                int slot = env.ctx.slot();
                catches.add(new Object[]{k, slot, body(c.next().next(), env.with((Symbol) c.next().first(), slot))});
            } else if (isSpecial(h, "finally")) fin = body(RT.next(x), env);
            else bd.add(x);
        }
        final Node b = body(RT.seq(PList.ofList(bd)), env), fi = fin;
        return new Node() {
            Object ev(Object[] f) {
                try { return b.ev(f); }
                catch (Throwable t) {
                    if (!(t instanceof Unsupported))
                        for (Object[] c : catches) if (((Class<?>) c[0]).isInstance(t)) { f[(Integer) c[1]] = t; return ((Node) c[2]).ev(f); }
                    throw RT.sneaky(t);
                } finally { if (fi != null) fi.ev(f); }
            }
        };
    }
    static Node caseNode(ISeq a, Env env) {
        final Node e = analyze(a.first(), env);
        final HashMap<Object, Node> ignored = null;
        AMap tests = PArrayMap.EMPTY; Node dflt = null;
        ISeq s = a.next();
        while (s != null) {
            if (s.next() == null) { dflt = analyze(s.first(), env); break; }
            Object k = s.first(); Node r = analyze(s.next().first(), env);
            if (k instanceof Sequential && !(k instanceof PVector)) { for (Object o : (Sequential) k) { if (tests.has(o)) throw new IllegalArgumentException("Duplicate case test constant: " + o); tests = tests.assoc(o, r); } }
            else { if (tests.has(k)) throw new IllegalArgumentException("Duplicate case test constant: " + k); tests = tests.assoc(k, r); }
            s = s.next().next();
        }
        final AMap t = tests; final Node d = dflt;
        return new Node() {
            Object ev(Object[] f) {
                Object v = e.ev(f); Object n = t.find(v);
                if (n != AMap.NONE) return ((Node) n).ev(f);
                if (d == null) throw new IllegalArgumentException("No matching clause: " + v);
                return d.ev(f);
            }
        };
    }

    // --- namespaces
    static Node nsNode(ISeq a) {
        final Symbol name = (Symbol) a.first(); final ISeq r = a.next();
        return new Node() {
            Object ev(Object[] f) {
                Namespace ns = Namespace.of(name.name);
                RT.NS.set(ns);
                for (ISeq s = r; s != null; s = s.next()) {
                    Object c = s.first();
                    if (c instanceof String || c instanceof AMap) continue;
                    Object h = RT.first(c); String k = ((Keyword) h).sym.name;
                    for (ISeq q = RT.next(c); q != null; q = q.next()) {
                        if (k.equals("require")) require(ns, q.first(), false);
                        else if (k.equals("use")) require(ns, q.first(), true);
                        else if (k.equals("import")) importSpec(ns, q.first());
                        else if (k.equals("refer-clojure")) { if (q.first() == Keyword.of("exclude")) for (Object o : (Iterable<?>) q.next().first()) ns.excluded.add(o.toString()); q = q.next(); if (q == null) break; }
                        else if (k.equals("gen-class")) break;
                        else throw new Unsupported("ns clause " + k);
                    }
                }
                return null;
            }
        };
    }
    static void importSpec(Namespace ns, Object spec) {
        if (spec instanceof Symbol) { Class<?> c = classOf(spec.toString()); if (c == null) throw RT.sneaky(new ClassNotFoundException(spec.toString())); String n = spec.toString(); ns.imports.put(n.substring(n.lastIndexOf('.') + 1), c); return; }
        ISeq s = RT.seq(spec); String pkg = s.first().toString();
        for (s = s.next(); s != null; s = s.next()) {
            Class<?> c = classOf(pkg + "." + s.first());
            if (c == null) throw RT.sneaky(new ClassNotFoundException(pkg + "." + s.first()));
            ns.imports.put(s.first().toString(), c);
        }
    }
    static void require(Namespace ns, Object spec, boolean use) {
        if (spec instanceof Keyword) return;     // :reload and the like
        if (spec instanceof Symbol) { load(spec.toString()); if (use) referAll(ns, spec.toString()); return; }
        if (spec instanceof Sequential) {
            ISeq s = RT.seq(spec); String n = s.first().toString();
            if (!(spec instanceof PVector) && s.next() != null && !(s.next().first() instanceof Keyword)) {   // a prefix list
                for (ISeq q = s.next(); q != null; q = q.next()) {
                    Object o = q.first();
                    if (o instanceof Symbol) require(ns, Symbol.of(null, n + "." + o), use);
                    else require(ns, new Cons(Symbol.of(null, n + "." + RT.first(o)), RT.seqOrEmpty(RT.next(o)), null, true), use);
                }
                return;
            }
            boolean asAlias = false;
            for (ISeq q = s.next(); q != null; q = q.next().next()) if (q.first() == Keyword.of("as-alias")) asAlias = true;
            if (!asAlias) load(n);
            boolean any = false;
            for (ISeq q = s.next(); q != null; q = q.next().next()) {
                Object k = q.first(), v = q.next() == null ? null : q.next().first();
                if (k == Keyword.of("as") || k == Keyword.of("as-alias")) ns.aliases.put(v.toString(), n);
                else if (k == Keyword.of("refer") || k == Keyword.of("only")) {
                    any = true;
                    if (v == Keyword.of("all")) referAll(ns, n);
                    else for (Object o : (Iterable<?>) v) {
                        Var x = Namespace.of(n).vars.get(o.toString());
                        if (x == null) { if (LIBS.contains(n)) throw new Unsupported("not known to this interpreter: " + n + "/" + o); throw new IllegalAccessError(o + " does not exist"); }
                        ns.refers.put(o.toString(), x);
                    }
                }
                else if (k == Keyword.of("rename")) { for (Object e : (AMap) v) ns.refers.put(((MapEntry) e).getValue().toString(), Namespace.of(n).vars.get(((MapEntry) e).getKey().toString())); }
                if (q.next() == null) break;
            }
            if (use && !any) referAll(ns, n);
            return;
        }
        throw bad("require " + RT.prStr(spec));
    }
    static void referAll(Namespace ns, String n) { for (Map.Entry<String, Var> e : Namespace.of(n).vars.entrySet()) if (!e.getValue().priv && !e.getKey().equals("*ns-loaded*")) ns.refers.put(e.getKey(), e.getValue()); }

    static final LinkedHashSet<String> loaded = new LinkedHashSet<>();
    static List<Path> classpath = new ArrayList<>();     // directories and jars, of the program
    static Path libs;                                    // the libraries written for this interpreter
    static Path locate(String rel) {
        for (Path p : classpath) {
            Path q = p.resolve(rel);
            if (Files.exists(q)) return q;
        }
        return null;
    }
    static void load(String n) {
        if (loaded.contains(n)) return;
        String rel = n.replace('-', '_').replace('.', '/') + ".clj";
        Path p = locate(rel);
        if (p == null) { p = libs.resolve(rel); if (Files.exists(p)) LIBS.add(n); else p = null; }
        if (p == null) {
            if (n.startsWith("clojure.") ) throw new Unsupported("library " + n);
            throw RT.sneaky(new java.io.FileNotFoundException("Could not locate " + rel.replace(".clj", "__init.class") + ", " + rel + " or " + rel.replace(".clj", ".cljc") + " on classpath."));
        }
        loaded.add(n);
        try { loadFile(p); } catch (Throwable t) { loaded.remove(n); throw t; }
    }
    static Object loadFile(Path p) {
        String src;
        try { src = new String(new java.io.FileInputStream(p.toFile()).readAllBytes(), StandardCharsets.UTF_8); } catch (java.io.IOException e) { throw RT.sneaky(e); }
        return loadString(src, p.toString());
    }
    static boolean booting = false;   // while clojure.core is loaded, a name may be used before it is defined
    static boolean debug = System.getenv("LJC_DEBUG") != null;
    static Object loadString(String src, String what) {
        AMap saved = Var.bindings.get();
        AMap b = saved == null ? PArrayMap.EMPTY : saved;
        Var.bindings.set(b.assoc(RT.NS, new Object[]{RT.NS.deref()}).assoc(RT.FILE, new Object[]{what}));
        try {
            Reader r = new Reader(src); Object x, v = null; 
            while ((x = r.read()) != Reader.EOF) {
                if (x == Reader.SKIP) continue;
                try { v = eval(x); }
                catch (Throwable t) {
                    if (debug) { int line = 1; for (int i = 0; i < r.i && i < src.length(); i++) if (src.charAt(i) == '\n') line++; System.err.println("in " + what + " before line " + line + ": " + t); }
                    throw t;
                }
            }
            return v;
        } finally { Var.bindings.set(saved); }
    }

    // --- Java
    static Node dot(ISeq a, Env env) {
        Object target = a.first(); Object mem = a.next().first(); ISeq args = a.next().next();
        if (mem instanceof Sequential) { args = RT.next(mem); mem = RT.first(mem); }
        final String m = ((Symbol) mem).name;
        final Node[] ns = nodes(args, env);
        if (target instanceof Symbol && find(env, (Symbol) target) == null && resolveVar((Symbol) target) == null) {
            final Class<?> c = classOf(target.toString());
            if (c != null) {
                if (ns.length == 0) {
                    try { final Field fd = c.getField(m); return new Node() { Object ev(Object[] f) { try { return RT.box(fd.get(null)); } catch (IllegalAccessException e) { throw RT.sneaky(e); } } }; } catch (NoSuchFieldException e) { }
                }
                return new Node() { Object ev(Object[] f) { return invokeStatic(c, m, evs(ns, f)); } };
            }
        }
        final Node t = analyze(target, env);
        if (m.startsWith("-")) {
            final String fd = m.substring(1);
            return new Node() { Object ev(Object[] f) { Object o = t.ev(f); try { return RT.box(o.getClass().getField(fd).get(o)); } catch (ReflectiveOperationException e) { return invokeMethod(o, fd, RT.NOARGS); } } };
        }
        return new Node() { Object ev(Object[] f) { Object o = t.ev(f); return invokeMethod(o, m, evs(ns, f)); } };
    }
    static int fit(Class<?> p, Object v) {
        if (v == null) return p.isPrimitive() ? -1 : 1;
        if (p == Object.class) return 1;
        if (p.isInstance(v)) return p == v.getClass() ? 6 : 4;
        if (p.isPrimitive()) {
            if (p == boolean.class) return v instanceof Boolean ? 6 : -1;
            if (p == char.class) return v instanceof Character ? 6 : -1;
            if (!(v instanceof Number)) return -1;
            if (v instanceof Long || v instanceof Integer) return p == long.class ? 6 : p == int.class ? 5 : p == short.class || p == byte.class ? 2 : 1;
            if (v instanceof Double) return p == double.class ? 6 : p == float.class ? 3 : -1;
            return -1;
        }
        if ((p == Integer.class || p == Short.class || p == Byte.class) && v instanceof Long) return 2;
        if (p.isInterface() && v instanceof IFn && functional(p) != null && !(v instanceof Sequential || v instanceof AMap || v instanceof PSet)) return 2;
        if ((p == Collection.class || p == List.class) && v instanceof Sequential) return 3;
        if ((p == Collection.class || p == Set.class) && v instanceof PSet) return 3;
        if (p == Map.class && v instanceof AMap) return 3;
        return -1;
    }
    static Method functional(Class<?> p) {
        Method one = null;
        for (Method m : p.getMethods()) if (Modifier.isAbstract(m.getModifiers())) {
            try { Object.class.getMethod(m.getName(), m.getParameterTypes()); continue; } catch (NoSuchMethodException e) { }
            if (one != null) return null;
            one = m;
        }
        return one;
    }
    static Object conv(final Class<?> p, final Object v) {
        if (v == null) return null;
        if (p.isInstance(v)) return v;
        if (v instanceof Number) {
            Number n = (Number) v;
            if (p == int.class || p == Integer.class) { if (v instanceof Long && n.longValue() != n.intValue()) throw new IllegalArgumentException("Value out of range for int: " + v); return n.intValue(); }
            if (p == long.class) return n.longValue();
            if (p == double.class) return n.doubleValue();
            if (p == float.class) return n.floatValue();
            if (p == short.class || p == Short.class) return n.shortValue();
            if (p == byte.class || p == Byte.class) return n.byteValue();
        }
        if ((p == Collection.class || p == List.class) && v instanceof Sequential) return RT.list(v);
        if ((p == Collection.class || p == Set.class) && v instanceof PSet) return new LinkedHashSet<>(RT.list(v));
        if (p == Map.class && v instanceof AMap) { LinkedHashMap<Object, Object> m = new LinkedHashMap<>(); for (Object e : (AMap) v) m.put(((MapEntry) e).getKey(), ((MapEntry) e).getValue()); return m; }
        if (p.isInterface() && v instanceof IFn) {
            final Method fm = functional(p);
            return Proxy.newProxyInstance(Interp.class.getClassLoader(), new Class<?>[]{p}, (proxy, m, args) -> {
                if (m.equals(fm) || m.getName().equals(fm.getName())) { Object r = ((IFn) v).invoke(args == null ? RT.NOARGS : args); return conv(m.getReturnType(), m.getReturnType() == boolean.class ? (Object) RT.truthy(r) : r); }
                if (m.getName().equals("hashCode")) return System.identityHashCode(v);
                if (m.getName().equals("equals")) return proxy == args[0];
                return v.toString();
            });
        }
        return v;
    }
    static Executable choose(Executable[] all, Object[] a) {
        Executable best = null; int bs = -1;
        for (Executable e : all) {
            Class<?>[] ps = e.getParameterTypes();
            if (ps.length != a.length) continue;
            int sc = 0;
            for (int i = 0; i < ps.length && sc >= 0; i++) { int k = fit(ps[i], a[i]); if (k < 0) sc = -1; else sc += k; }
            if (sc > bs) { bs = sc; best = e; }
        }
        return best;
    }
    static Object[] convAll(Executable e, Object[] a) {
        Class<?>[] ps = e.getParameterTypes(); Object[] r = new Object[a.length];
        for (int i = 0; i < a.length; i++) r[i] = conv(ps[i], a[i]);
        return r;
    }
    static Object construct(Class<?> c, Object[] a) {
        if (c == ExInfo.class) return new ExInfo((String) a[0], a[1], a.length > 2 ? (Throwable) a[2] : null);
        Constructor<?> k = (Constructor<?>) choose(c.getConstructors(), a);
        if (k == null) throw new IllegalArgumentException("No matching ctor found for class " + c.getName());
        try { return k.newInstance(convAll(k, a)); }
        catch (InvocationTargetException e) { throw RT.sneaky(e.getCause()); }
        catch (ReflectiveOperationException e) { throw RT.sneaky(e); }
    }
    static Object invokeStatic(Class<?> c, String n, Object[] a) {
        ArrayList<Method> l = new ArrayList<>();
        for (Method m : c.getMethods()) if (Modifier.isStatic(m.getModifiers()) && m.getName().equals(n)) l.add(m);
        Method m = (Method) choose(l.toArray(new Method[0]), a);
        if (m == null) throw new IllegalArgumentException("No matching method " + n + " found taking " + a.length + " args for class " + c.getName());
        try { return RT.box(m.invoke(null, convAll(m, a))); }
        catch (InvocationTargetException e) { throw RT.sneaky(e.getCause()); }
        catch (ReflectiveOperationException e) { throw RT.sneaky(e); }
    }
    static Object invokeMethod(Object o, String n, Object[] a) {
        if (o == null) throw new NullPointerException("Cannot invoke \"" + n + "\" because the target is null");
        if (o instanceof Class && !(n.equals("getName") || n.equals("getSimpleName") || n.equals("isInstance") || n.equals("getResource") || n.equals("getResourceAsStream"))) {
            for (Method m : ((Class<?>) o).getMethods()) if (Modifier.isStatic(m.getModifiers()) && m.getName().equals(n)) return invokeStatic((Class<?>) o, n, a);
        }
        if (o.getClass().getName().startsWith("ljc.")) { Object r = Core.ljcMethod(o, n, a); if (r != AMap.NONE) return r; }
        ArrayList<Method> l = new ArrayList<>();
        collect(o.getClass(), n, l, new HashSet<>());
        Method m = (Method) choose(l.toArray(new Method[0]), a);
        if (m == null) {
            if (a.length == 0) try { return RT.box(o.getClass().getField(n).get(o)); } catch (ReflectiveOperationException e) { }
            if (o.getClass().getName().startsWith("ljc.")) throw new Unsupported("method " + n + " of " + RT.className(o));
            throw new IllegalArgumentException("No matching " + (a.length == 0 ? "field" : "method") + " found: " + n + " for class " + o.getClass().getName());
        }
        try { return RT.box(m.invoke(o, convAll(m, a))); }
        catch (InvocationTargetException e) { throw RT.sneaky(e.getCause()); }
        catch (ReflectiveOperationException e) { throw RT.sneaky(e); }
    }
    static void collect(Class<?> c, String n, List<Method> out, Set<Class<?>> seen) {
        if (c == null || !seen.add(c)) return;
        if (Modifier.isPublic(c.getModifiers()) && (c.getModule().isExported(c.getPackageName()) || !c.getModule().isNamed()))
            for (Method m : c.getDeclaredMethods()) if (Modifier.isPublic(m.getModifiers()) && !Modifier.isStatic(m.getModifiers()) && !m.isBridge() && m.getName().equals(n)) out.add(m);
        collect(c.getSuperclass(), n, out, seen);
        for (Class<?> i : c.getInterfaces()) collect(i, n, out, seen);
    }
}
