package ljc;

import java.nio.file.*;
import java.util.*;

/** java -cp … -Dljc.lib=LIBS -Dljc.path=DIR:DIR ljc.Main (-m NAMESPACE | FILE) ARGS… */
public final class Main {
    static void boot() {
        Interp.libs = Paths.get(System.getProperty("ljc.lib"));
        for (String p : System.getProperty("ljc.path", "").split(":")) if (!p.isEmpty()) Interp.classpath.add(Paths.get(p));
        Var.bindings.set(PArrayMap.EMPTY.assoc(RT.NS, new Object[]{RT.CORE}));
        Core.init();
        Interp.LIBS.add("clojure.core");
        Interp.booting = true;
        Interp.loadFile(Interp.libs.resolve("clojure/core.clj"));
        Interp.booting = false;
        for (Map.Entry<String, Var> e : RT.CORE.vars.entrySet()) if (e.getValue().root == Var.UNBOUND && !e.getKey().startsWith("unquote")) throw new Unsupported("clojure.core/" + e.getKey() + " is used and never defined");
        Interp.loaded.add("clojure.core");
        RT.NS.set(Namespace.of("user"));
    }
    static int run(String[] args) throws Throwable {
        boot();
        ArrayList<Object> rest = new ArrayList<>();
        int from = args[0].equals("-m") ? 2 : 1;
        for (int k = from; k < args.length; k++) rest.add(args[k]);
        RT.CLARGS.root = RT.seq(PVector.ofList(rest));
        if (args[0].equals("-m")) {
            Interp.load(args[1]);
            Core.apply(Namespace.of(args[1]).vars.get("-main"), RT.NOARGS, RT.CLARGS.root);
        } else Interp.loadFile(Paths.get(args[0]));
        ((java.io.Writer) RT.OUT.deref()).flush();
        return 0;
    }
    public static void main(final String[] args) throws Exception {
        final int[] rc = {0};
        Thread t = new Thread(null, () -> {
            try { rc[0] = run(args); }
            catch (Unsupported u) { System.err.println("LJC-UNSUPPORTED " + u.getMessage()); rc[0] = 97; }
            catch (Throwable e) {
                try { ((java.io.Writer) RT.OUT.deref()).flush(); } catch (Exception x) { }
                System.err.println("Execution error: " + e);
                for (Throwable c = e.getCause(); c != null; c = c.getCause()) System.err.println("caused by: " + c);
                if (System.getenv("LJC_TRACE") != null) e.printStackTrace();
                rc[0] = 1;
            }
        }, "main", 1L << 30);
        t.start(); t.join();
        System.exit(rc[0]);
    }
}
