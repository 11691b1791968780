package lessov;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;
import java.util.*;
import java.util.stream.IntStream;

/** Accelerated versions of operators of Bits, Sampler and Codes/Canon. */
public final class CodeOv {
    static final int Q = 127;
    static final byte[][] MUL = new byte[Q][Q];
    static final int[] INV = new int[Q];
    static {
        for (int a = 0; a < Q; a++) for (int b = 0; b < Q; b++) {
            MUL[a][b] = (byte) (a * b % Q);
            if (a * b % Q == 1) INV[a] = b;
        }
    }
    static RecordValue rec(Object... kv) {
        UniqueString[] n = new UniqueString[kv.length / 2];
        Value[] v = new Value[kv.length / 2];
        for (int i = 0; i < n.length; i++) { n[i] = UniqueString.of((String) kv[2*i]); v[i] = (Value) kv[2*i+1]; }
        return new RecordValue(n, v, false);
    }
    static Value field(Value r, String name) {
        RecordValue rv = (RecordValue) r.toRcd();
        return rv.apply(new StringValue(name), 0);
    }
    // ---------------------------------------------------------------- Bits
    static int fld(byte[] b, long off, int w) {
        int r = 0;
        for (int i = 0; i < w; i++) { long j = off + i; r |= ((b[(int)(j >> 3)] >> (j & 7)) & 1) << i; }
        return r;
    }
    @TLAPlusOperator(identifier = "Unpack", module = "Bits", warn = false)
    public static Value unpack(Value bytes, Value off, Value w, Value cnt) {
        byte[] b = V.bytes(bytes);
        int[] r = new int[V.i(cnt)];
        for (int i = 0; i < r.length; i++) r[i] = fld(b, V.i(off) + (long) i * V.i(w), V.i(w));
        return V.seq(r);
    }
    static void put(byte[] o, long off, int w, int v) {
        for (int i = 0; i < w; i++) { long j = off + i; if ((j >> 3) < o.length && ((v >> i) & 1) != 0) o[(int)(j >> 3)] |= 1 << (j & 7); }
    }
    @TLAPlusOperator(identifier = "Pack", module = "Bits", warn = false)
    public static Value pack(Value vals, Value w, Value nbytes) {
        byte[] o = new byte[V.i(nbytes)];
        int[] v = V.ints(vals);
        for (int i = 0; i < v.length; i++) put(o, (long) i * V.i(w), V.i(w), v[i]);
        return V.seq(o);
    }
    @TLAPlusOperator(identifier = "Pack2", module = "Bits", warn = false)
    public static Value pack2(Value v1, Value w1, Value v2, Value w2, Value nbytes) {
        byte[] o = new byte[V.i(nbytes)];
        int[] a = V.ints(v1), b = V.ints(v2);
        for (int i = 0; i < a.length; i++) put(o, (long) i * V.i(w1), V.i(w1), a[i]);
        for (int i = 0; i < b.length; i++) put(o, (long) a.length * V.i(w1) + (long) i * V.i(w2), V.i(w2), b[i]);
        return V.seq(o);
    }
    // ------------------------------------------------------------- Sampler
    @TLAPlusOperator(identifier = "SampleElems", module = "Sampler", warn = false)
    public static Value sampleElems(Value stream, Value span, Value min, Value cnt) {
        byte[] s = V.bytes(stream);
        int n = V.i(cnt), c = 0, w = 0;
        int[] out = new int[n];
        while (true) {
            if (8 * (w + 1) > s.length) {
                return rec("els", V.seq(Arrays.copyOf(out, c)), "words", IntValue.gen(w), "done", BoolValue.ValFalse);
            }
            for (int j = 0; j < 9 && c < n; j++) {
                int v = fld(s, 64L * w + 7 * j, 7);
                if (v <= V.i(span)) out[c++] = v + V.i(min);
            }
            w++;
            if (c == n) return rec("els", V.seq(out), "words", IntValue.gen(w), "done", BoolValue.ValTrue);
        }
    }
    @TLAPlusOperator(identifier = "Shuffle", module = "Sampler", warn = false)
    public static Value shuffle(Value stream, Value nn) {
        byte[] s = V.bytes(stream);
        int n = V.i(nn);
        int[] p = new int[n];
        for (int i = 0; i < n; i++) p[i] = i;
        for (int i = 0; i < n - 1; i++) {
            long x = (s[4*i] & 255L) | (s[4*i+1] & 255L) << 8 | (s[4*i+2] & 255L) << 16 | (s[4*i+3] & 255L) << 24;
            int j = i + (int) (x % (n - i));
            int t = p[i]; p[i] = p[j]; p[j] = t;
        }
        return V.seq(p);
    }
    // --------------------------------------------------------------- Codes
    static byte[][] bmat(Value v) {
        Value[] e = V.tup(v).elems;
        byte[][] r = new byte[e.length][];
        for (int i = 0; i < r.length; i++) {
            r[i] = V.bytes(e[i]);
            for (byte x : r[i]) if (x < 0 || x >= Q) throw new RuntimeException("not a field element");
        }
        return r;
    }
    static Value vmat(byte[][] m) {
        Value[] e = new Value[m.length];
        for (int i = 0; i < e.length; i++) e[i] = V.seq(m[i]);
        return new TupleValue(e);
    }
    /** in place; returns pivot columns (0-based) found, fewer than rows when rank deficient */
    static int[] rref(byte[][] m) {
        int k = m.length, n = m[0].length, c = 0;
        int[] piv = new int[k];
        for (int r = 0; r < k; r++) {
            int j = -1;
            for (; c < n; c++) {
                for (j = r; j < k && m[j][c] == 0; j++) { }
                if (j < k) break;
            }
            if (c >= n) return Arrays.copyOf(piv, r);
            byte[] t = m[r]; m[r] = m[j]; m[j] = t;
            byte[] p = m[r];
            byte[] f = MUL[INV[p[c]]];
            for (int x = 0; x < n; x++) p[x] = f[p[x]];
            for (int i = 0; i < k; i++) {
                if (i == r || m[i][c] == 0) continue;
                byte[] g = MUL[Q - m[i][c]], row = m[i];
                for (int x = 0; x < n; x++) { int y = row[x] + g[p[x]]; row[x] = (byte) (y >= Q ? y - Q : y); }
            }
            piv[r] = c++;
        }
        return piv;
    }
    static Value oneBased(int[] p) { int[] q = new int[p.length]; for (int i = 0; i < q.length; i++) q[i] = p[i] + 1; return V.seq(q); }

    @TLAPlusOperator(identifier = "RREF", module = "Codes", warn = false)
    public static Value rrefV(Value mv) {
        byte[][] m = bmat(mv);
        int[] p = rref(m);
        return rec("ok", p.length == m.length ? BoolValue.ValTrue : BoolValue.ValFalse, "m", vmat(m), "piv", oneBased(p));
    }
    static byte[][] monoAct(byte[][] g, int[] c, int[] p) {
        int n = p.length;
        byte[][] o = new byte[g.length][n];
        for (int i = 0; i < g.length; i++) for (int j = 0; j < n; j++) o[i][p[j]] = MUL[g[i][j]][c[j]];
        return o;
    }
    @TLAPlusOperator(identifier = "MonoAct", module = "Codes", warn = false)
    public static Value monoActV(Value g, Value a) {
        return vmat(monoAct(bmat(g), V.ints(field(a, "c")), V.ints(field(a, "p"))));
    }
    static byte[][] actionAct(byte[][] g, int[] c, int[] p) {
        int k = g.length, n = g[0].length;
        boolean[] picked = new boolean[n];
        for (int x : p) picked[x] = true;
        int[] src = new int[n];
        int d = 0;
        for (int x : p) src[d++] = x;
        for (int x = 0; x < n && d < n; x++) if (!picked[x]) src[d++] = x;
        byte[][] o = new byte[k][n];
        for (int i = 0; i < k; i++) for (int j = 0; j < n; j++)
            o[i][j] = j < p.length ? MUL[g[i][src[j]]][c[j]] : g[i][src[j]];
        return o;
    }
    @TLAPlusOperator(identifier = "ActionAct", module = "Codes", warn = false)
    public static Value actionActV(Value g, Value a) {
        return vmat(actionAct(bmat(g), V.ints(field(a, "c")), V.ints(field(a, "p"))));
    }
    // --------------------------------------------------------------- Canon
    static byte[][] sortCols(byte[][] cols) {
        Arrays.sort(cols, (a, b) -> { for (int i = 0; i < a.length; i++) if (a[i] != b[i]) return a[i] - b[i]; return 0; });
        return cols;
    }
    static byte[][] transpose(byte[][] m, int r) {
        byte[][] o = new byte[r][m.length];
        for (int j = 0; j < m.length; j++) for (int i = 0; i < r; i++) o[i][j] = m[j][i];
        return o;
    }
    static final class Canon { boolean ok; int[] piv; byte[][] v; }
    static Canon canon(byte[][] m) {
        Canon c = new Canon();
        int k = m.length, n = m[0].length;
        c.piv = rref(m);
        c.ok = c.piv.length == k;
        c.v = new byte[0][];
        if (!c.ok) return c;
        boolean[] isp = new boolean[n];
        for (int p : c.piv) isp[p] = true;
        byte[][] cols = new byte[n - k][k];
        int d = 0;
        for (int j = 0; j < n; j++) if (!isp[j]) {
            int f = 0;
            for (int i = 0; i < k; i++) { cols[d][i] = m[i][j]; if (f == 0) f = m[i][j]; }
            byte[] g = MUL[INV[f]];
            for (int i = 0; i < k; i++) cols[d][i] = g[cols[d][i]];
            d++;
        }
        c.v = transpose(sortCols(cols), k);
        return c;
    }
    static Value canonRec(Canon c) {
        return rec("ok", c.ok ? BoolValue.ValTrue : BoolValue.ValFalse, "piv", oneBased(c.piv), "v", vmat(c.v));
    }
    @TLAPlusOperator(identifier = "CanonOf", module = "Canon", warn = false)
    public static Value canonOf(Value m) { return canonRec(canon(bmat(m))); }

    @TLAPlusOperator(identifier = "SortMatrix", module = "Canon", warn = false)
    public static Value sortMatrix(Value vv) {
        byte[][] v = bmat(vv);
        return vmat(transpose(sortCols(transpose(v, v[0].length)), v.length));
    }
    static Value commit(byte[][] g, int[] c, int[] p) {
        Canon x = canon(monoAct(g, c, p));
        int[] s = new int[p.length];
        for (int i = 0; i < p.length; i++) s[p[i]] = i;
        int[] ap = new int[x.piv.length], ac = new int[x.piv.length];
        for (int i = 0; i < ap.length; i++) { ap[i] = s[x.piv[i]]; ac[i] = c[ap[i]]; }
        return rec("v", vmat(x.v), "ok", x.ok ? BoolValue.ValTrue : BoolValue.ValFalse,
                   "act", rec("p", V.seq(ap), "c", V.seq(ac)));
    }
    @TLAPlusOperator(identifier = "Commit", module = "Canon", warn = false)
    public static Value commitV(Value g, Value a) {
        return commit(bmat(g), V.ints(field(a, "c")), V.ints(field(a, "p")));
    }
    @TLAPlusOperator(identifier = "CommitAll", module = "Canon", warn = false)
    public static Value commitAll(Value g, Value maps) {
        byte[][] gm = bmat(g);
        Value[] m = V.tup(maps).elems, out = new Value[m.length];
        int[][] c = new int[m.length][], p = new int[m.length][];
        for (int i = 0; i < m.length; i++) { c[i] = V.ints(field(m[i], "c")); p[i] = V.ints(field(m[i], "p")); }
        IntStream.range(0, m.length).parallel().forEach(i -> out[i] = commit(gm, c[i], p[i]));
        return new TupleValue(out);
    }
    @TLAPlusOperator(identifier = "RespondAll", module = "Canon", warn = false)
    public static Value respondAll(Value jobs) {
        Value[] m = V.tup(jobs).elems, out = new Value[m.length];
        byte[][][] g = new byte[m.length][][];
        int[][] c = new int[m.length][], p = new int[m.length][];
        for (int i = 0; i < m.length; i++) {
            Value a = field(m[i], "a");
            g[i] = bmat(field(m[i], "g")); c[i] = V.ints(field(a, "c")); p[i] = V.ints(field(a, "p"));
        }
        IntStream.range(0, m.length).parallel().forEach(i -> out[i] = canonRec(canon(actionAct(g[i], c[i], p[i]))));
        return new TupleValue(out);
    }
    @TLAPlusOperator(identifier = "FlatForms", module = "Canon", warn = false)
    public static Value flatForms(Value vs) {
        ArrayList<Value> l = new ArrayList<>();
        for (Value m : V.tup(vs).elems) for (Value r : V.tup(m).elems) l.addAll(Arrays.asList(V.tup(r).elems));
        return new TupleValue(l.toArray(new Value[0]));
    }
}
