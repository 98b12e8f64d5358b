import com.sun.jna.Function;
import com.sun.jna.NativeLibrary;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import org.puimula.libvoikko.*;
import org.puimula.libvoikko.Dictionary;

/** Calls the methods of the Java binding as asked line by line on standard input. Values: s + hexadecimal UTF-16 units, n, t, f, numbers, [lists], {maps}, X + exception class. */
public class Server {
    static String str(String hex) {
        if (hex.equals("n")) return null;
        StringBuilder b = new StringBuilder();
        for (int i = 1; i + 4 <= hex.length(); i += 4) b.append((char) Integer.parseInt(hex.substring(i, i + 4), 16));
        return b.toString();
    }
    static String out(Object o) {
        if (o == null) return "n";
        if (o instanceof Boolean) return (Boolean) o ? "t" : "f";
        if (o instanceof Integer || o instanceof Long) return o.toString();
        StringBuilder b = new StringBuilder();
        if (o instanceof String) { b.append('s'); for (char c : ((String) o).toCharArray()) b.append(String.format("%04x", (int) c)); return b.toString(); }
        if (o instanceof List) { b.append('['); boolean first = true; for (Object x : (List<?>) o) { if (!first) b.append(','); first = false; b.append(out(x)); } return b.append(']').toString(); }
        if (o instanceof Analysis) { TreeMap<String, String> m = new TreeMap<String, String>(); for (Map.Entry<String, String> e : ((Analysis) o).entrySet()) m.put(out(e.getKey()), out(e.getValue())); b.append('{'); boolean first = true; for (Map.Entry<String, String> e : m.entrySet()) { if (!first) b.append(','); first = false; b.append(e.getKey()).append(':').append(e.getValue()); } return b.append('}').toString(); }
        if (o instanceof Token) { Token t = (Token) o; return out(Arrays.asList(t.getText(), t.getType().getId(), t.getType().name(), t.getStartOffset(), t.getEndOffset())); }
        if (o instanceof Sentence) { Sentence s = (Sentence) o; return out(Arrays.asList(s.getText(), s.getNextStartType().name())); }
        if (o instanceof GrammarError) { GrammarError e = (GrammarError) o; return out(Arrays.asList(e.getErrorCode(), e.getStartPos(), e.getErrorLen(), e.getShortDescription(), e.getSuggestions(), e.toString())); }
        if (o instanceof Dictionary) { Dictionary d = (Dictionary) o; return out(Arrays.asList(d.getLanguage(), d.getScript(), d.getVariant(), d.getDescription())); }
        return "?" + o.getClass().getName();
    }
    interface Call { Object go() throws Exception; }
    static String safe(Call c) {
        try { return out(c.go()); }
        catch (VoikkoException e) { return "XVoikkoException"; }
        catch (Throwable e) { return "X" + e.getClass().getSimpleName(); }
    }
    static final String[] METHODS = {"spell", "suggest", "analyze", "getHyphenationPattern", "hyphenate", "hyphenate shy", "hyphenate long", "hyphenate empty", "hyphenate NUL", "tokens", "sentences", "attributeValues", "grammarErrors fi", "grammarErrors en", "grammarErrors empty"};
    static Object method(final Voikko v, final String m, final String t) {
        switch (m) {
        case "spell": return v.spell(t);
        case "suggest": return v.suggest(t);
        case "analyze": return v.analyze(t);
        case "getHyphenationPattern": return v.getHyphenationPattern(t);
        case "hyphenate": return v.hyphenate(t);
        case "hyphenate shy": return v.hyphenate(t, "\u00ad", true);
        case "hyphenate long": return v.hyphenate(t, "<\ud83d\ude00>", false);
        case "hyphenate empty": return v.hyphenate(t, "", false);
        case "hyphenate NUL": return v.hyphenate(t, "\0", true);
        case "tokens": return v.tokens(t);
        case "sentences": return v.sentences(t);
        case "attributeValues": return v.attributeValues(t);
        case "grammarErrors fi": return v.grammarErrors(t, "fi");
        case "grammarErrors en": return v.grammarErrors(t, "en");
        case "grammarErrors empty": return v.grammarErrors(t, "");
        case "terminate": v.terminate(); return null;
        default: throw new IllegalStateException(m);
        }
    }
    static Object set(Voikko v, String name, int x) {
        boolean b = x != 0;
        switch (name) {
        case "setIgnoreDot": v.setIgnoreDot(b); break;
        case "setIgnoreNumbers": v.setIgnoreNumbers(b); break;
        case "setIgnoreUppercase": v.setIgnoreUppercase(b); break;
        case "setNoUglyHyphenation": v.setNoUglyHyphenation(b); break;
        case "setAcceptFirstUppercase": v.setAcceptFirstUppercase(b); break;
        case "setAcceptAllUppercase": v.setAcceptAllUppercase(b); break;
        case "setIgnoreNonwords": v.setIgnoreNonwords(b); break;
        case "setAcceptExtraHyphens": v.setAcceptExtraHyphens(b); break;
        case "setAcceptMissingHyphens": v.setAcceptMissingHyphens(b); break;
        case "setAcceptTitlesInGc": v.setAcceptTitlesInGc(b); break;
        case "setAcceptUnfinishedParagraphsInGc": v.setAcceptUnfinishedParagraphsInGc(b); break;
        case "setHyphenateUnknownWords": v.setHyphenateUnknownWords(b); break;
        case "setAcceptBulletedListsInGc": v.setAcceptBulletedListsInGc(b); break;
        case "setSuggestionStrategy": v.setSuggestionStrategy(b ? SuggestionStrategy.OCR : SuggestionStrategy.TYPO); break;
        case "setMinHyphenatedWordLength": v.setMinHyphenatedWordLength(x); break;
        case "setSpellerCacheSize": v.setSpellerCacheSize(x); break;
        default: throw new IllegalStateException(name);
        }
        return "ok";
    }
    static Function blocks, bytes, gateArm, gateEntered, gateOverlap, gateRelease, gateEntries;
    static long held() { return blocks.invokeLong(new Object[0]); }
    static long heldBytes() { return bytes.invokeLong(new Object[0]); }
    static int gate(Function f, Object... a) { return f.invokeInt(a); }
    // one thread stops at its k-th entry into the library, another one calls m2 meanwhile
    static String together(final Voikko v, final String m1, final String t1, int k, final String m2, final String t2) throws Exception {
        final String[] r = new String[2];
        gate(gateArm, k);
        Thread a = new Thread() { public void run() { r[0] = safe(new Call() { public Object go() { return m1.startsWith("set") ? set(v, m1, 1) : method(v, m1, t1); } }); } };
        Thread b = new Thread() { public void run() { r[1] = safe(new Call() { public Object go() { return m2.startsWith("set") ? set(v, m2, 1) : method(v, m2, t2); } }); } };
        a.start();
        while (gate(gateEntered) == 0 && a.isAlive()) Thread.sleep(0, 200000);
        if (gate(gateEntered) == 0) { a.join(); gate(gateRelease); return "[0,n,n,f]"; }
        b.start();
        int calm = 0;
        while (gate(gateOverlap) == 0 && b.isAlive() && calm < 12) {
            Thread.State s = b.getState();
            if (s == Thread.State.BLOCKED || s == Thread.State.WAITING || s == Thread.State.TIMED_WAITING) calm++; else calm = 0;
            Thread.sleep(0, 500000);
        }
        boolean overlap = gate(gateOverlap) != 0;
        gate(gateRelease);
        a.join(); b.join();
        return "[1," + r[0] + "," + r[1] + "," + (overlap ? "t" : "f") + "]";
    }
    public static void main(String[] args) throws Exception {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.US_ASCII));
        PrintStream o = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "US-ASCII");
        if (args.length > 1) { NativeLibrary g = NativeLibrary.getInstance(args[1]); gateArm = g.getFunction("gate_arm"); gateEntered = g.getFunction("gate_entered"); gateOverlap = g.getFunction("gate_overlap"); gateRelease = g.getFunction("gate_release"); gateEntries = g.getFunction("gate_entries"); }
        Voikko.addLibraryPath(args[0]);
        NativeLibrary p = NativeLibrary.getProcess();
        blocks = p.getFunction("newcount_blocks"); bytes = p.getFunction("newcount_bytes");
        final Map<String, Voikko> open = new HashMap<String, Voikko>();
        for (String line; (line = in.readLine()) != null;) {
            final String[] a = line.split("\t", -1);
            String r;
            switch (a[0]) {
            case "open": { long h = held(); r = safe(new Call() { public Object go() { open.put(a[1], a.length > 3 ? new Voikko(str(a[2]), str(a[3])) : new Voikko(str(a[2]))); return "ok"; } }); r += "\t" + (held() - h); break; }
            case "message": try { new Voikko(str(a[1]), str(a[2])).terminate(); r = "n"; } catch (VoikkoException e) { r = out(e.getMessage()); } catch (Throwable e) { r = "X" + e.getClass().getSimpleName(); } break;
            case "close": { long h = held(); final Voikko v = open.get(a[1]); r = safe(new Call() { public Object go() { v.terminate(); return "ok"; } }); r += "\t" + (held() - h); break; }
            case "drop": open.remove(a[1]); r = "ok"; break;
            case "finalize": { long h = held(); open.clear(); for (int i = 0; i < 50 && held() == h; i++) { System.gc(); System.runFinalization(); Thread.sleep(5); } r = Long.toString(held() - h); break; }
            case "all": case "some": {
                final Voikko v = open.get(a[1]); final String t = str(a[2]); StringBuilder b = new StringBuilder();
                for (final String m : METHODS) { if (a[0].equals("some") && !Arrays.asList(a[3].split(",")).contains(m)) continue; long h = held(), g = heldBytes(); String x = safe(new Call() { public Object go() { return method(v, m, t); } }); b.append(x).append('\t').append(held() - h).append('\t').append(heldBytes() - g).append('\t'); }
                r = b.toString(); break; }
            case "set": { long g = heldBytes(); r = safe(new Call() { public Object go() { return set(open.get(a[1]), a[2], Integer.parseInt(a[3])); } }); r += "\t" + (heldBytes() - g); break; }
            case "dicts": { long h = held(); r = safe(new Call() { public Object go() { return a.length > 1 ? Voikko.listDicts(str(a[1])) : Voikko.listDicts(); } }); r += "\t" + (held() - h); break; }
            case "order": { // order of two dictionaries and their equality
                Dictionary x = new Dictionary(str(a[1]), str(a[2]), str(a[3]), str(a[4])), y = new Dictionary(str(a[5]), str(a[6]), str(a[7]), str(a[8]));
                r = Integer.signum(x.compareTo(y)) + "\t" + out(x.equals(y)) + "\t" + out(x.hashCode() == y.hashCode()) + "\t" + out(x.equals(null)) + "\t" + out(x.toString()); break; }
            case "together": r = together(open.get(a[1]), a[2], str(a[3]), Integer.parseInt(a[4]), a[5], str(a[6])); break;
            case "entries": { final Voikko v = open.get(a[1]); gate(gateArm, 0); int before = gate(gateEntries); if (a[2].startsWith("set")) set(v, a[2], 1); else method(v, a[2], str(a[3])); r = Integer.toString(gate(gateEntries) - before); break; }
            default: r = "?";
            }
            o.print(r); o.print('\n'); o.flush();
        }
    }
}
