package lessov;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;
import java.nio.file.*;
import java.util.*;

/** Reads a recorded trace (JSON without fractions) into TLC values. */
public final class TraceOv {
    static final IntValue[] SMALL = new IntValue[65536];
    static { for (int i = 0; i < SMALL.length; i++) SMALL[i] = IntValue.gen(i); }
    private static final HashMap<String, UniqueString> NAMES = new HashMap<>();
    private static byte[] b;
    private static int at;

    @TLAPlusOperator(identifier = "LoadTrace", module = "TraceBase", warn = false)
    public static synchronized Value load(Value path) throws Exception {
        b = Files.readAllBytes(Paths.get(((StringValue) path).val.toString()));
        at = 0;
        Value v = value();
        skip();
        if (at != b.length) throw new RuntimeException("trace: trailing text at " + at);
        b = null;
        return v;
    }
    private static void skip() { while (at < b.length && b[at] <= ' ') at++; }
    private static Value value() {
        skip();
        byte c = b[at];
        if (c == '[') {
            at++;
            ArrayList<Value> l = new ArrayList<>();
            skip();
            if (b[at] == ']') { at++; return new TupleValue(new Value[0]); }
            for (;;) {
                l.add(value());
                skip();
                if (b[at] == ',') { at++; continue; }
                if (b[at] == ']') { at++; break; }
                throw new RuntimeException("trace: array at " + at);
            }
            return new TupleValue(l.toArray(new Value[0]));
        }
        if (c == '{') {
            at++;
            ArrayList<UniqueString> n = new ArrayList<>();
            ArrayList<Value> l = new ArrayList<>();
            for (;;) {
                skip();
                n.add(NAMES.computeIfAbsent(string(), UniqueString::of));
                skip();
                if (b[at++] != ':') throw new RuntimeException("trace: object at " + at);
                l.add(value());
                skip();
                if (b[at] == ',') { at++; continue; }
                if (b[at] == '}') { at++; break; }
                throw new RuntimeException("trace: object at " + at);
            }
            return new RecordValue(n.toArray(new UniqueString[0]), l.toArray(new Value[0]), false);
        }
        if (c == '"') return new StringValue(string());
        if (c == 't') { at += 4; return BoolValue.ValTrue; }
        if (c == 'f') { at += 5; return BoolValue.ValFalse; }
        boolean neg = c == '-';
        if (neg) at++;
        long v = 0;
        int from = at;
        while (at < b.length && b[at] >= '0' && b[at] <= '9') { v = v * 10 + b[at++] - '0'; if (v > Integer.MAX_VALUE) throw new RuntimeException("trace: large number at " + at); }
        if (at == from) throw new RuntimeException("trace: value at " + at);
        if (neg) v = -v;
        return v >= 0 && v < SMALL.length ? SMALL[(int) v] : IntValue.gen((int) v);
    }
    private static String string() {
        if (b[at++] != '"') throw new RuntimeException("trace: string at " + at);
        StringBuilder s = new StringBuilder();
        while (b[at] != '"') {
            if (b[at] == '\\') {
                at++;
                if (b[at] == 'u') { s.append((char) Integer.parseInt(new String(b, at + 1, 4), 16)); at += 5; continue; }
                s.append(b[at] == 'n' ? '\n' : b[at] == 't' ? '\t' : b[at] == 'r' ? '\r' : (char) b[at]);
                at++;
                continue;
            }
            s.append((char) (b[at++] & 255));
        }
        at++;
        return s.toString();
    }
}
