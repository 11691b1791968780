package lessov;

import tlc2.value.impl.*;
import tlc2.value.IValue;

/** Conversions between TLC values and Java arrays. */
final class V {
    static TupleValue tup(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("expected a sequence, got " + v.getKindString());
        return (TupleValue) t;
    }
    static int[] ints(Value v) {
        Value[] e = tup(v).elems;
        int[] r = new int[e.length];
        for (int i = 0; i < r.length; i++) r[i] = ((IntValue) e[i]).val;
        return r;
    }
    static byte[] bytes(Value v) {
        Value[] e = tup(v).elems;
        byte[] r = new byte[e.length];
        for (int i = 0; i < r.length; i++) {
            int x = ((IntValue) e[i]).val;
            if (x < 0 || x > 255) throw new RuntimeException("not a byte: " + x);
            r[i] = (byte) x;
        }
        return r;
    }
    static TupleValue seq(byte[] b) {
        Value[] e = new Value[b.length];
        for (int i = 0; i < e.length; i++) e[i] = TraceOv.SMALL[b[i] & 255];
        return new TupleValue(e);
    }
    static TupleValue seq(int[] b) {
        Value[] e = new Value[b.length];
        for (int i = 0; i < e.length; i++) e[i] = b[i] >= 0 && b[i] < 65536 ? TraceOv.SMALL[b[i]] : IntValue.gen(b[i]);
        return new TupleValue(e);
    }
    static int i(Value v) { return ((IntValue) v).val; }
    static int[][] mat(Value v) {
        Value[] e = tup(v).elems;
        int[][] r = new int[e.length][];
        for (int i = 0; i < r.length; i++) r[i] = ints(e[i]);
        return r;
    }
    static TupleValue mat(int[][] m) {
        Value[] e = new Value[m.length];
        for (int i = 0; i < e.length; i++) e[i] = seq(m[i]);
        return new TupleValue(e);
    }
}
