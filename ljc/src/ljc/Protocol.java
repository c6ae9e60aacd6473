package ljc;

import java.lang.reflect.*;
import java.util.*;

/** A protocol: its methods choose by the class of their first argument. */
final class Protocol {
    final Symbol name; final LinkedHashMap<Class<?>, AMap> impls = new LinkedHashMap<>();
    Protocol(Symbol n) { name = n; }
    public String toString() { return "#'" + name; }
    synchronized void extend(Class<?> c, AMap methods) { impls.put(c, methods); }
    synchronized AMap impl(Object o) {
        if (o == null) return impls.get(null);
        Class<?> c = o.getClass();
        if (impls.containsKey(c)) return impls.get(c);
        for (Class<?> k = c; k != null && k != Object.class; k = k.getSuperclass()) if (impls.containsKey(k)) return impls.get(k);
        for (Class<?> k : RT.supers(c)) if (k.isInterface() && impls.containsKey(k)) return impls.get(k);
        return impls.get(Object.class);
    }
    static Reified reified(Object o) {
        if (o != null && Proxy.isProxyClass(o.getClass())) { InvocationHandler h = Proxy.getInvocationHandler(o); if (h instanceof Reified) return (Reified) h; }
        return null;
    }
    boolean satisfied(Object o) {
        Reified r = reified(o);
        return r != null && r.protocols.contains(this) || impl(o) != null;
    }
    IFn method(final String m) {
        return new Builtin(m, 1, -1, a -> {
            Reified r = reified(a[0]);
            if (r != null && r.protocols.contains(this) && r.methods.has(Keyword.of(m))) return ((IFn) r.methods.get(Keyword.of(m), null)).invoke(a);
            AMap t = impl(a[0]);
            if (t == null && a[0] != null && RT.meta(a[0]) != null) { Object f = RT.get(RT.meta(a[0]), Symbol.of(name.ns, m), null); if (f != null) return ((IFn) f).invoke(a); }
            Object f = t == null ? null : t.get(Keyword.of(m), null);
            if (f == null) throw new IllegalArgumentException("No implementation of method: :" + m + " of protocol: " + this + " found for class: " + (a[0] == null ? "nil" : RT.className(a[0])));
            return ((IFn) f).invoke(a);
        });
    }
}

/** What reify makes: methods given the object itself first. */
final class Reified implements InvocationHandler {
    interface Made { }
    final Set<Protocol> protocols = new HashSet<>(); final AMap methods;
    Reified(AMap m) { methods = m; }
    static Object make(PVector types, AMap methods) {
        Reified r = new Reified(methods); ArrayList<Class<?>> l = new ArrayList<>();
        l.add(Made.class);
        for (int k = 0; k < types.n; k++) {
            Object t = types.nth(k);
            if (t instanceof Protocol) r.protocols.add((Protocol) t);
            else if (t == Object.class) continue;
            else if (((Class<?>) t).isInterface()) l.add((Class<?>) t);
            else throw new Unsupported("reify of class " + t);
        }
        return Proxy.newProxyInstance(Reified.class.getClassLoader(), l.toArray(new Class<?>[0]), r);
    }
    public Object invoke(Object self, Method m, Object[] args) throws Throwable {
        Object f = methods.get(Keyword.of(m.getName()), null);
        if (f != null) {
            Object[] a = new Object[1 + (args == null ? 0 : args.length)]; a[0] = self;
            if (args != null) for (int k = 0; k < args.length; k++) a[k + 1] = RT.box(args[k]);
            Object r = ((IFn) f).invoke(a);
            Class<?> t = m.getReturnType();
            return t == void.class ? null : Interp.conv(t, t == boolean.class ? (Object) RT.truthy(r) : r);
        }
        switch (m.getName()) {
            case "hashCode": return System.identityHashCode(self);
            case "equals": return self == args[0];
            case "toString": return "reify@" + Integer.toHexString(System.identityHashCode(self));
        }
        if (m.isDefault()) return InvocationHandler.invokeDefault(self, m, args);
        throw new AbstractMethodError(m.getName());
    }
}
