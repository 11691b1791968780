package lessov;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

public final class KeccakOv {
    static final long[] RC = {
        0x0000000000000001L,0x0000000000008082L,0x800000000000808aL,0x8000000080008000L,
        0x000000000000808bL,0x0000000080000001L,0x8000000080008081L,0x8000000000008009L,
        0x000000000000008aL,0x0000000000000088L,0x0000000080008009L,0x000000008000000aL,
        0x000000008000808bL,0x800000000000008bL,0x8000000000008089L,0x8000000000008003L,
        0x8000000000008002L,0x8000000000000080L,0x000000000000800aL,0x800000008000000aL,
        0x8000000080008081L,0x8000000000008080L,0x0000000080000001L,0x8000000080008008L };
    static final int[] ROT = {0,1,62,28,27, 36,44,6,55,20, 3,10,43,25,39, 41,45,15,21,8, 18,2,61,56,14};

    static void f(long[] a) {
        long[] b = new long[25], c = new long[5];
        for (int r = 0; r < 24; r++) {
            for (int x = 0; x < 5; x++) c[x] = a[x]^a[x+5]^a[x+10]^a[x+15]^a[x+20];
            for (int x = 0; x < 5; x++) {
                long d = c[(x+4)%5] ^ Long.rotateLeft(c[(x+1)%5], 1);
                for (int y = 0; y < 5; y++) a[x+5*y] ^= d;
            }
            for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++)
                b[y + 5*((2*x+3*y)%5)] = Long.rotateLeft(a[x+5*y], ROT[x+5*y]);
            for (int y = 0; y < 25; y += 5) for (int x = 0; x < 5; x++)
                a[x+y] = b[x+y] ^ (~b[(x+1)%5+y] & b[(x+2)%5+y]);
            a[0] ^= RC[r];
        }
    }
    static byte[] sponge(int rate, int dom, byte[] m, int n) {
        long[] s = new long[25];
        int off = 0;
        byte[] blk = new byte[rate];
        while (true) {
            int l = Math.min(rate, m.length - off);
            java.util.Arrays.fill(blk, (byte) 0);
            System.arraycopy(m, off, blk, 0, l);
            boolean last = l < rate;
            if (last) { blk[l] ^= (byte) dom; blk[rate-1] ^= (byte) 0x80; }
            for (int i = 0; i < rate; i++) s[i>>3] ^= (blk[i] & 255L) << (8*(i&7));
            f(s);
            off += l;
            if (last) break;
        }
        byte[] out = new byte[n];
        for (int i = 0; i < n; i++) {
            if (i > 0 && i % rate == 0) f(s);
            int j = i % rate;
            out[i] = (byte) (s[j>>3] >>> (8*(j&7)));
        }
        return out;
    }

    @TLAPlusOperator(identifier = "KeccakF", module = "Keccak", warn = false)
    public static Value keccakF(Value st) {
        byte[] b = V.bytes(st);
        long[] s = new long[25];
        for (int i = 0; i < 200; i++) s[i>>3] |= (b[i] & 255L) << (8*(i&7));
        f(s);
        for (int i = 0; i < 200; i++) b[i] = (byte) (s[i>>3] >>> (8*(i&7)));
        return V.seq(b);
    }

    @TLAPlusOperator(identifier = "Sponge", module = "Keccak", warn = false)
    public static Value sponge(Value rate, Value dom, Value msg, Value n) {
        return V.seq(sponge(V.i(rate), V.i(dom), V.bytes(msg), V.i(n)));
    }
}
