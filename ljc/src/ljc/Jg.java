package ljc;

/** What a custom encoder writes to. */
public final class Jg {
    final StringBuilder b;
    Jg(StringBuilder b) { this.b = b; }
    public void writeString(String s) { Lib.quote(s, b); }
    public void writeNumber(String s) { b.append(s); }
}
