package ljc;

/** limabean.main, as from a jar: where things are is in the environment. */
public final class Launch {
    public static void main(String[] args) throws Exception {
        System.setProperty("ljc.lib", System.getenv("LJC_LIB"));
        System.setProperty("ljc.path", System.getenv("LJC_PATH"));
        String[] all = new String[args.length + 2];
        all[0] = "-m";
        all[1] = "limabean.main";
        System.arraycopy(args, 0, all, 2, args.length);
        Main.main(all);
    }
}
