import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.util.FP64;
import tlc2.value.IValue;
import tlc2.value.impl.*;
import util.UniqueString;

/** The recorded histories, as TLA+ values (implements spec/TraceData.tla). */
public class TraceData {
    static final class Step { Value pre, act, ok, post, ev; String src; }
    static final List<Step> STEPS = new ArrayList<>();
    static final PrintWriter OUT;
    static {
        try {
            final String files = System.getProperty("trace.files");
            OUT = new PrintWriter(new OutputStreamWriter(new FileOutputStream(System.getProperty("trace.report")), StandardCharsets.UTF_8), true);
            final List<Future<List<Step>>> fs = new ArrayList<>();
            final ExecutorService ex = Executors.newFixedThreadPool(8);
            if (files != null) for (final String f : files.split(",")) fs.add(Loader.submit(ex, f));
            for (final Future<List<Step>> f : fs) STEPS.addAll(f.get());
            ex.shutdown();
        } catch (final Exception e) {
            e.printStackTrace();
            throw new RuntimeException(e);
        }
    }

    static final class Loader {
    static Future<List<Step>> submit(final ExecutorService ex, final String f) { return ex.submit(() -> load(f)); }
    static List<Step> load(final String file) throws IOException {
        final List<Step> r = new ArrayList<>();
        try (BufferedReader in = Files.newBufferedReader(Paths.get(file), StandardCharsets.UTF_8)) {
            String line;
            TreeMap<String, Value> cur = null;
            Value curRec = null;
            final Map<Integer, TreeMap<String, Value>> at = new HashMap<>();   // states a later line may start from
            final Map<Integer, Value> atRec = new HashMap<>();
            int n = 0;
            while ((line = in.readLine()) != null) {
                n++;
                final Map<String, Object> o = new P(line).members();
                if (o.containsKey("init")) {
                    cur = new TreeMap<>();
                    merge(cur, (P) o.get("init"));
                    curRec = rec(cur);
                    continue;
                }
                final boolean branch = o.containsKey("p");
                if (branch) {
                    final int p = Integer.parseInt(((P) o.get("p")).rest());
                    if (p != n - 1) { cur = new TreeMap<>(at.get(p)); curRec = atRec.get(p); }
                }
                final Step s = new Step();
                s.pre = curRec;
                s.act = ((P) o.get("a")).value();
                s.act.deepNormalize();
                s.ok = ((P) o.get("ok")).value();
                s.ok.deepNormalize();
                s.ev = o.containsKey("e") ? ((P) o.get("e")).value() : new TupleValue(new Value[0]);
                s.ev.deepNormalize();
                merge(cur, (P) o.get("c"));
                curRec = rec(cur);
                s.post = curRec;
                s.src = file + ":" + n;
                if (branch || file.contains("/graph_")) { at.put(n, new TreeMap<>(cur)); atRec.put(n, curRec); }
                r.add(s);
            }
        }
        return r;
    }
    static void merge(final TreeMap<String, Value> cur, final P p) {
        for (final Map.Entry<String, Object> e : p.members().entrySet()) {
            final Value v = ((P) e.getValue()).value();
            v.deepNormalize();
            cur.put(e.getKey(), v);
        }
    }
    static Value rec(final Map<String, Value> m) {
        final UniqueString[] names = new UniqueString[m.size()];
        final Value[] vals = new Value[m.size()];
        int i = 0;
        for (final Map.Entry<String, Value> e : m.entrySet()) { names[i] = UniqueString.uniqueStringOf(e.getKey()); vals[i++] = e.getValue(); }
        final Value r = new RecordValue(names, vals, false);
        r.deepNormalize();
        return r;
    }

    }

    /** A position in a JSON text, parsed on demand. */
    static final class P {
        final String s; int i;
        P(final String s) { this.s = s; }
        P(final String s, final int i) { this.s = s; this.i = i; }
        void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
        String rest() { int j = i; while (j < s.length() && ",}] ".indexOf(s.charAt(j)) < 0) j++; return s.substring(i, j); }
        char peek() { ws(); return s.charAt(i); }
        void expect(final char c) { ws(); if (s.charAt(i) != c) throw new RuntimeException("JSON: expected " + c + " at " + i + " got " + s.charAt(i)); i++; }
        Map<String, Object> members() { // top level members without parsing their values
            final Map<String, Object> m = new LinkedHashMap<>();
            expect('{');
            if (peek() == '}') { i++; return m; }
            while (true) {
                ws();
                final String k = str();
                expect(':');
                ws();
                m.put(k, new P(s, i));
                skip();
                if (peek() == ',') { i++; continue; }
                expect('}');
                return m;
            }
        }
        void skip() {
            ws();
            final char c = s.charAt(i);
            if (c == '"') { str(); return; }
            if (c == '{' || c == '[') {
                int d = 0;
                while (true) {
                    final char x = s.charAt(i);
                    if (x == '"') { str(); continue; }
                    if (x == '{' || x == '[') d++;
                    if (x == '}' || x == ']') { d--; if (d == 0) { i++; return; } }
                    i++;
                }
            }
            while (i < s.length() && ",}] ".indexOf(s.charAt(i)) < 0) i++;
        }
        String str() {
            expect('"');
            final StringBuilder b = new StringBuilder();
            while (true) {
                final char c = s.charAt(i++);
                if (c == '"') return b.toString();
                if (c == '\\') {
                    final char d = s.charAt(i++);
                    switch (d) {
                        case 'n': b.append('\n'); break;
                        case 't': b.append('\t'); break;
                        case 'r': b.append('\r'); break;
                        case 'b': b.append('\b'); break;
                        case 'f': b.append('\f'); break;
                        case 'u': b.append((char) Integer.parseInt(s.substring(i, i + 4), 16)); i += 4; break;
                        default: b.append(d);
                    }
                } else b.append(c);
            }
        }
        Value value() {
            ws();
            final char c = s.charAt(i);
            if (c == '"') return new StringValue(str());
            if (c == '[') {
                i++;
                final ArrayList<Value> l = new ArrayList<>();
                if (peek() == ']') { i++; return new TupleValue(new Value[0]); }
                while (true) {
                    l.add(value());
                    if (peek() == ',') { i++; continue; }
                    expect(']');
                    return new TupleValue(l.toArray(new Value[0]));
                }
            }
            if (c == '{') {
                i++;
                final ArrayList<String> ks = new ArrayList<>();
                final ArrayList<Value> vs = new ArrayList<>();
                boolean ints = true;
                if (peek() == '}') { i++; return new FcnRcdValue(new Value[0], new Value[0], true); }
                while (true) {
                    ws();
                    final String k = str();
                    ks.add(k);
                    ints &= isInt(k);
                    expect(':');
                    vs.add(value());
                    if (peek() == ',') { i++; continue; }
                    expect('}');
                    break;
                }
                if (ks.size() == 1 && ks.get(0).equals("$set")) {
                    final TupleValue t = (TupleValue) vs.get(0);
                    return new SetEnumValue(t.elems, false);
                }
                final Value[] v = vs.toArray(new Value[0]);
                if (ints) {
                    final Value[] d = new Value[v.length];
                    for (int j = 0; j < d.length; j++) d[j] = IntValue.gen(Integer.parseInt(ks.get(j)));
                    return new FcnRcdValue(d, v, false);
                }
                final UniqueString[] names = new UniqueString[v.length];
                for (int j = 0; j < v.length; j++) names[j] = UniqueString.uniqueStringOf(ks.get(j));
                return new RecordValue(names, v, false);
            }
            final int st = i;
            skip();
            final String t = s.substring(st, i);
            switch (t) {
                case "true": return BoolValue.ValTrue;
                case "false": return BoolValue.ValFalse;
                case "null": return new StringValue("null");
                default:
                    try { return IntValue.gen(Integer.parseInt(t)); }
                    catch (final NumberFormatException e) { return new StringValue("BIG" + t); }
            }
        }
        static boolean isInt(final String k) {
            if (k.isEmpty() || k.length() > 9) return false;
            for (int j = 0; j < k.length(); j++) if (k.charAt(j) < '0' || k.charAt(j) > '9') return false;
            return true;
        }
    }

    private static Step st(final Value i) { return STEPS.get(((IntValue) i).val - 1); }
    public static Value TraceLen() { return IntValue.gen(STEPS.size()); }
    public static Value Pre(final Value i) { return st(i).pre; }
    public static Value Act(final Value i) { return st(i).act; }
    public static Value OkOf(final Value i) { return st(i).ok; }
    public static Value Post(final Value i) { return st(i).post; }
    public static Value EvOf(final Value i) { return st(i).ev; }

    /** the same elements, in any order */
    public static Value SameBag(final Value a, final Value b) {
        final Value[] x = ((TupleValue) a.toTuple()).elems, y = ((TupleValue) b.toTuple()).elems;
        if (x.length != y.length) return BoolValue.ValFalse;
        final boolean[] used = new boolean[y.length];
        next: for (final Value v : x) {
            for (int j = 0; j < y.length; j++) if (!used[j] && eq(v, y[j])) { used[j] = true; continue next; }
            return BoolValue.ValFalse;
        }
        return BoolValue.ValTrue;
    }
    static boolean eq(final Value a, final Value b) {
        try { return a.equals(b); } catch (final RuntimeException e) { return false; }
    }

    /** a = b, with a shortcut for identical objects */
    public static Value Same(final Value a, final Value b) { return (a == b || a.equals(b)) ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static final Set<String> WANT = System.getProperty("trace.want") == null ? null : new HashSet<>(Arrays.asList(System.getProperty("trace.want").split(",")));
    public static Value Want(final Value tag) {
        return WANT == null || WANT.contains(((StringValue) tag).val.toString()) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    static String q(final String s) {
        final StringBuilder b = new StringBuilder("\"");
        for (final char c : s.toCharArray()) {
            if (c == '"' || c == '\\') b.append('\\').append(c);
            else if (c < ' ') b.append(' ');
            else b.append(c);
        }
        return b.append('"').toString();
    }
    static String cut(final Value v) { final String s = String.valueOf(v); return s.length() > 4000 ? s.substring(0, 4000) + "..." : s; }
    public static Value Report(final Value i, final Value tag, final Value exp, final Value got) {
        final Step s = st(i);
        final String kind = String.valueOf(((RecordValue) s.act).apply(new StringValue("kind"), 0));
        synchronized (OUT) {
            OUT.println("{\"step\":" + q(s.src) + ",\"kind\":" + q(kind.replace("\"", "")) + ",\"tag\":" + q(String.valueOf(tag).replace("\"", ""))
                + ",\"exp\":" + q(cut(exp)) + ",\"got\":" + q(cut(got)) + "}");
        }
        return BoolValue.ValTrue;
    }

    /* ---- exploration (spec/MC.tla): scenario k starts where the k-th file ends ---- */
    static final class Scen {
        Value state, meta; String name; PrintWriter out;
        final ConcurrentHashMap<List<Long>, Integer> ids = new ConcurrentHashMap<>();
        final java.util.concurrent.atomic.AtomicInteger next = new java.util.concurrent.atomic.AtomicInteger(), edges = new java.util.concurrent.atomic.AtomicInteger();
        int max;
        static List<Long> key(final Value s, final Value ph) { s.deepNormalize(); return Arrays.asList(s.fingerPrint(FP64.New()), ph.fingerPrint(FP64.New())); }
    }
    static final List<Scen> SCENS = new ArrayList<>();
    static {
        try {
            final String fs = System.getProperty("mc.files");
            final String dir = System.getProperty("mc.dir");
            if (fs != null) for (final String f : fs.split(",")) {
                final Scen sc = new Scen();
                String first;
                try (BufferedReader in = Files.newBufferedReader(Paths.get(f), StandardCharsets.UTF_8)) { first = in.readLine(); }
                sc.meta = ((P) new P(first).members().get("meta")).value();
                sc.meta.deepNormalize();
                sc.name = ((StringValue) ((RecordValue) sc.meta).apply(new StringValue("scenario"), 0)).val.toString();
                final List<Step> r = Loader.load(f);
                sc.state = r.get(r.size() - 1).post;
                sc.max = Integer.getInteger("mc.max." + sc.name, Integer.getInteger("mc.max", 5000));
                sc.out = new PrintWriter(new BufferedWriter(new OutputStreamWriter(new FileOutputStream(dir + "/edges_" + sc.name), StandardCharsets.UTF_8)));
                sc.ids.put(Scen.key(sc.state, new StringValue("in")), 0);
                sc.next.set(1);
                SCENS.add(sc);
            }
            Runtime.getRuntime().addShutdownHook(new Thread(() -> { for (final Scen s : SCENS) s.out.close(); }));
        } catch (final Exception e) {
            e.printStackTrace();
            throw new RuntimeException(e);
        }
    }
    private static Scen sc(final Value k) { return SCENS.get(((IntValue) k).val - 1); }
    public static Value MCCount() { return IntValue.gen(SCENS.size()); }
    public static Value MCMeta(final Value k) { return sc(k).meta; }
    public static Value MCState(final Value k) { return sc(k).state; }
    public static Value Room(final Value k) { final Scen s = sc(k); return s.edges.get() < s.max ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value Emit(final Value k, final Value s, final Value ph, final Value a, final Value t, final Value tph) {
        final Scen x = sc(k);
        x.edges.incrementAndGet();
        final Integer from = x.ids.get(Scen.key(s, ph));
        final List<Long> tk = Scen.key(t, tph);
        boolean fresh = false;
        Integer to = x.ids.get(tk);
        if (to == null) synchronized (x) {
            to = x.ids.get(tk);
            if (to == null) { to = x.next.getAndIncrement(); x.ids.put(tk, to); fresh = true; }
        }
        final StringBuilder b = new StringBuilder();
        json(b, a);
        synchronized (x.out) { x.out.println("{\"f\":" + from + ",\"t\":" + to + ",\"new\":" + fresh + ",\"a\":" + b + "}"); }
        return BoolValue.ValTrue;
    }
    static void json(final StringBuilder b, final Value v0) {
        Value v = v0;
        if (v instanceof IntValue) b.append(((IntValue) v).val);
        else if (v instanceof BoolValue) b.append(((BoolValue) v).val);
        else if (v instanceof StringValue) b.append(q(((StringValue) v).val.toString()));
        else if (v instanceof SetEnumValue || v.toSetEnum() != null) {
            final SetEnumValue s = (SetEnumValue) v.toSetEnum();
            s.normalize();
            b.append("{\"$set\":[");
            for (int i = 0; i < s.elems.size(); i++) { if (i > 0) b.append(','); json(b, s.elems.elementAt(i)); }
            b.append("]}");
        } else if (v instanceof TupleValue) {
            b.append('[');
            for (int i = 0; i < ((TupleValue) v).elems.length; i++) { if (i > 0) b.append(','); json(b, ((TupleValue) v).elems[i]); }
            b.append(']');
        } else {
            final FcnRcdValue f = (FcnRcdValue) v.toFcnRcd();
            f.normalize();
            final Value[] d = f.getDomainAsValues();
            b.append('{');
            for (int i = 0; i < d.length; i++) {
                if (i > 0) b.append(',');
                b.append(d[i] instanceof StringValue ? q(((StringValue) d[i]).val.toString()) : "\"" + d[i] + "\"").append(':');
                json(b, f.values[i]);
            }
            b.append('}');
        }
    }
    public static Value MCReport(final Value k, final Value s, final Value ph, final Value a, final Value tag, final Value got) {
        final Scen x = sc(k);
        final String kind = String.valueOf(((FcnRcdValue) a.toFcnRcd()).apply(new StringValue("kind"), 0));
        synchronized (OUT) {
            OUT.println("{\"scenario\":" + q(x.name) + ",\"node\":" + x.ids.get(Scen.key(s, ph)) + ",\"kind\":" + q(kind.replace("\"", "")) + ",\"tag\":" + q(String.valueOf(tag).replace("\"", ""))
                + ",\"act\":" + q(cut(a)) + ",\"got\":" + q(cut(got)) + "}");
        }
        return BoolValue.ValTrue;
    }

    /** Try(e): [ok |-> TRUE, v |-> e], or [ok |-> FALSE, v |-> message] if e can not be evaluated */
    @Evaluation(definition = "Try", module = "TraceData", warn = false, silent = true)
    public static Value tryEval(final Tool tool, final ExprOrOpArgNode[] args, final Context c, final TLCState s0, final TLCState s1, final int control, final CostModel cm) {
        final UniqueString ok = UniqueString.uniqueStringOf("ok"), v = UniqueString.uniqueStringOf("v");
        try {
            final Value r = (Value) tool.eval(args[0], c, s0, s1, control, cm);
            r.deepNormalize();
            return new RecordValue(new UniqueString[] { ok, v }, new Value[] { BoolValue.ValTrue, r }, false);
        } catch (final RuntimeException | StackOverflowError e) {
            String m = String.valueOf(e.getMessage());
            if (System.getProperty("trace.debug") != null) e.printStackTrace();
            return new RecordValue(new UniqueString[] { ok, v }, new Value[] { BoolValue.ValFalse, new StringValue(m) }, false);
        }
    }
}
