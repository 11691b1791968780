package lessov;

import tlc2.overrides.ITLCOverrides;

/** Keccak only. */
public class KeccakOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() { return new Class[] { KeccakOv.class, AesOv.class }; }
}
