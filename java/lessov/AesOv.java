package lessov;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import javax.crypto.Cipher;
import javax.crypto.spec.SecretKeySpec;

public final class AesOv {
    @TLAPlusOperator(identifier = "Aes256", module = "Aes", warn = false)
    public static Value aes(Value key, Value block) throws Exception {
        Cipher c = Cipher.getInstance("AES/ECB/NoPadding");
        c.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(V.bytes(key), "AES"));
        return V.seq(c.doFinal(V.bytes(block)));
    }
}
